#!/bin/bash
# try.sh [ID...]: applies each planted bug to /repo, runs the quick check of its property, undoes it
cd /verif
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply seeded/$i/patch.diff 2>/dev/null || git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i APPLY FAILED"; continue; }
  s=$(date +%s)
  VERIF_TIER=quick VERIF_SEED=1 timeout 900 /opt/veriftools/pyvenv/bin/python check.py $p --tier quick >/tmp/try.$i.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  tee_line="$i $p rc=$r $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/try.$i.log) :: $(grep '^VIOLATION' /tmp/try.$i.log | head -1 | cut -c1-200)"; echo "$tee_line"; sed -i "/^$i /d" tools/seed/results.txt; echo "$i $p rc=$r" >> tools/seed/results.txt
done
