#!/bin/bash
# catch.sh ID..: applies each seeded change to /repo, runs the check of its property, undoes it
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "$ID: patch does not apply"; continue; }
(cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $P > ${CATCH_OUT:-/tmp/catch.one} 2>&1; echo "$ID $P exit $? $(grep -m1 VIOLATION ${CATCH_OUT:-/tmp/catch.one})")
git -C /repo checkout -q -- .
done
