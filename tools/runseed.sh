#!/bin/bash
# runseed.sh ID... : apply each planted bug, run the check of its property, undo
for id in "$@"; do
 d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
 out=$(cd /verif && timeout 900 python3-vt check.py $p 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$id $p rc=$rc $(echo "$out" | grep '^VIOLATION' | sort -u | tr '\n' ' ') $(echo "$out" | tail -1)"
done
