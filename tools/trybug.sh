#!/bin/bash
# trybug.sh ID...: applies each planted bug to /repo, runs its property's quick check, undoes it
cd /verif
for b in "$@"; do
  b=${b%/}; b=${b##*/}
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  s=$(date +%s)
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py "$p" >/tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -c "^VIOLATION property=$p" /tmp/try.out) $(grep -m1 'violated:' /tmp/try.out | cut -c1-110) $(grep -m1 'INCONC\|ERROR' /tmp/try.out | cut -c1-160)"
done
