#!/bin/bash
# det.sh <bug>...: applies each planted bug in /repo, runs the check of its property, undoes it
for b in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  t0=$(date +%s); VERIF_SEED=${SEED:-1} timeout 900 bash /verif/check.sh $p quick > /tmp/det.$b.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p exit $rc $(( $(date +%s)-t0 ))s $(grep -c ^VIOLATION /tmp/det.$b.log) $(tail -3 /tmp/det.$b.log | head -1 | cut -c1-160)"
done
