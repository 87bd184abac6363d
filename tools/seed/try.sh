#!/bin/bash
# try.sh ID... : apply each planted bug to /repo, run its property's check, undo
for id in "$@"; do p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
 out=$(cd /verif && python3 run_check.py $p 2>&1); rc=$?; git -C /repo checkout -- .
 echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations: $(echo "$out" | grep -A1 '^VIOLATION' | grep '^   ' | cut -c1-140 | head -2 | tr '\n' ';')"; done
