#!/bin/bash
# catch.sh BUG...: applies each planted bug to /repo, runs its property's quick check, undoes it. (Development tool.)
cd /verif
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  t0=$(date +%s); timeout 900 env VERIF_SEED=1 VERIF_TIER=quick python3 run.py $p quick > /tmp/catch.$b 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$b $p rc=$rc $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION' /tmp/catch.$b)"
done
