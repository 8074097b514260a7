#!/bin/bash
# seed.sh new ID          creates /verif/seeded/ID from the scratch copy /tmp/sr's diff
# seed.sh verify ID       in /tmp/sr: patch builds, stable tests pass, demo 0 / nonzero
# seed.sh catch ID [CHECK...]  applies the patch to /repo, runs the check(s), and undoes it
set -u
cmd=$1; id=$2; shift 2
dir=/verif/seeded/$id
case $cmd in
new)
  mkdir -p $dir
  git -C /tmp/sr diff > $dir/patch.diff
  [ -f $dir/demo.sh ] || { sed -e "s|@FEATURES@|${FEATURES:-}|" -e "s|@DEPS@|${DEPS:-}|" /verif/tools/demo/demo.sh > $dir/demo.sh; chmod +x $dir/demo.sh; }
  cp /verif/tools/demo/web.rs $dir/web.rs
  git -C /tmp/sr checkout -q -- . ;;
verify)
  cd /tmp/sr && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
  export DEMO_TARGET_DIR=/tmp/demo-target
  a=0; b=0
  out=$(bash $dir/demo.sh 2>&1) || a=$?
  [ $a = 0 ] || { echo "$id: demo fails on the unchanged tree ($a): $out"; exit 1; }
  git apply $dir/patch.diff || { echo "$id: patch does not apply"; exit 1; }
  ( . /opt/vp/env.sh; export CARGO_TARGET_DIR=/tmp/sr/target
    rm -rf /tmp/sr-out; mkdir -p /tmp/sr-out
    cargo test $TARGETS --no-fail-fast --offline -- --test-threads 8 > /tmp/sr-out/tests.log 2>&1
    cargo test --workspace --all-features --doc --no-fail-fast --offline -- --test-threads 8 > /tmp/sr-out/doc.log 2>&1
    python3 /opt/vp/results.py /tmp/sr-out/OUT.json "cargo:/tmp/sr-out/*.log" )
  python3 - <<P || { git checkout -q -- .; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/sr-out/OUT.json'))
m=[t for t in b if t not in o['passed']]
if m: print("$id: stable tests fail:",m); sys.exit(1)
P
  out=$(bash $dir/demo.sh 2>&1) || b=$?
  git checkout -q -- .
  [ $b = 0 ] && { echo "$id: demo passes with the patch"; exit 1; }
  echo "$id: ok (demo with patch: rc $b: $(echo "$out" | head -c 600))" ;;
catch)
  checks=${*:-$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")}
  git -C /repo apply $dir/patch.diff || exit 1
  for c in $checks; do
    o=$(cd /verif && timeout 900 ./check.sh $c quick 2>&1); rc=$?
    echo "$id $c rc=$rc $(echo "$o" | grep -E 'VIOLATION|ERROR' | head -2)"
  done
  git -C /repo checkout -q -- . ;;
esac
