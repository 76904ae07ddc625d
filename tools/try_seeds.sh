#!/bin/bash
# try_seeds.sh [ids…]: runs each planted bug's check against a scratch copy of /repo with the bug applied.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/try.XXXXXX)
  git -C /repo archive HEAD | tar -x -C $w
  (cd $w && patch -s -p1 < /verif/seeded/$id/patch.diff) || echo "$id: patch failed"
  INK_REPO=$w timeout 900 python3 check.py $p > /tmp/try_$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -m1 -A1 '^  ' /tmp/try_$id.log | tr '\n' ' ' | cut -c1-220)"
  rm -rf $w
done
git -C /verif checkout -q -- evidence 2>/dev/null
