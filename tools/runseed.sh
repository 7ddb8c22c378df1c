#!/bin/bash
# runseed.sh ID...: applies each planted bug to /repo, runs the check of its property, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $p 2>/dev/null); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep VIOLATION | grep -c no-failing) :: $(echo "$out" | head -1 | cut -c1-200)"
done
