#!/bin/bash
# sweep.sh SECS SEED… : every check with several seeds; prints violations only.
cd "$(dirname "$0")/.."; S=$1; shift
for s in "$@"; do for i in ${IDS:-$(target/debug/sim list)}; do VERIF_SEED=$s VERIF_SECS=$S target/debug/sim check $i quick 2>/dev/null | grep VIOLATION | sed "s/^/seed $s: /"; done; done
