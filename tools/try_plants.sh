#!/bin/bash
# Runs the check of every planted bug (or of the given ones) with the bug applied to /repo.
# Not used by any check.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  id=$(python3 -c "import json,sys; print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  start=$SECONDS
  out=$(./check $id --tier ${TIER:-quick} --seed ${SEED:-1} 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $id rc=$rc $((SECONDS-start))s $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep -m1 -A1 VIOLATION | cut -c1-200 | tr '\n' ' ')"
done
