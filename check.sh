#!/bin/bash
# check.sh ID [quick|thorough]   — decides one property against /repo's working tree
# check.sh replay FILE           — replays a recorded violation
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
mkdir -p target replays evidence
# One build at a time; cargo rebuilds what changed in /repo.
(
  flock 9
  cd sim && cargo build --offline --locked >../target/build.log 2>&1
) 9>target/.build.lock
rc=$?
if [ $rc -ne 0 ]; then
  tail -40 target/build.log
  echo "ERROR the harness does not build"
  exit 2
fi
if [ "$1" = setup ]; then exit 0; fi
if [ "$1" = replay ]; then exec target/debug/sim replay "$2"; fi
exec target/debug/sim check "$1" "${2:-quick}" 2>/dev/null
