#!/bin/bash
# tools/runall.sh TIER [PID...]: runs the checks one after another
V=$(cd "$(dirname "$0")/.." && pwd); T=$1; shift
for p in ${@:-$(python3 -c "import json;print(*[c['property_id'] if 'property_id' in c else c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")}; do
  o=$(cd $V && python3 check.py $p $T 2>&1); rc=$?; echo "$p rc=$rc $(echo "$o" | grep -m1 "$T:")"; [ $rc != 0 ] && echo "$o" | tail -8
done
