#!/bin/bash
# seedcheck.sh ID...: runs the property's quick check with the planted change applied.
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: does not apply"; continue; }
(cd /verif && timeout 900 python3 run.py $P > /tmp/sc_$ID.log 2>&1); rc=$?
git -C /repo checkout -q -- .
echo "$ID $P rc=$rc $(grep -m1 'violation in' /tmp/sc_$ID.log)"
done
