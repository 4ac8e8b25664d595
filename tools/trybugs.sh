#!/bin/bash
# trybugs.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo. Development aid.
cd /verif/seeded
for i in ${@:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: patch does not apply"; continue; }
  t0=$(date +%s)
  out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i: rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -E '^violation in run|^ERROR|harness error' | head -1 | cut -c1-200)"
  if [ $rc -ne 1 ]; then echo "$out" | tail -5 | cut -c1-300; fi
done
