#!/bin/bash
# runs the check of each seeded bug with the bug applied to /repo, and undoes it
V=$(cd "$(dirname "$0")/.." && pwd)
for d in ${@:-$(ls $V/seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$d/meta.json'))['property'])")
  git -C /repo apply $V/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  o=$(cd $V && python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -c '^VIOLATION property='$p) $(echo "$o" | grep -m1 quick:)"
  [ $rc = 2 ] && echo "$o" | tail -5
done
