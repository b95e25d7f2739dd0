#!/bin/bash
# applies every planted bug to /repo in turn and runs its property's quick check
cd /verif
for d in seeded/*/; do
  id=$(basename $d); [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  p=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id noapply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python harness/run_check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then r=caught; else r="MISSED rc=$rc"; fi
  echo "$id $p $r $(( $(date +%s) - s ))s"
done
