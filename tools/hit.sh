#!/bin/bash
# bash tools/hit.sh ID...: applies each planted bug to /repo, runs the quick check of its property, undoes it.
for ID in "$@"; do
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$ID/patch.diff || continue
timeout 900 bash /verif/run.sh $P quick > /tmp/hit.$ID.out 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$ID $P rc=$rc $(grep -c '^VIOLATION' /tmp/hit.$ID.out) violations: $(grep -m1 '^VIOLATION' /tmp/hit.$ID.out)"
done
