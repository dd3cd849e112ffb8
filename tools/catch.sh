#!/bin/bash
# run each planted bug's own check (quick) against it: tools/catch.sh [id...]
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash run.sh $p quick >/tmp/catch_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  grep -q "VIOLATION property=$p" /tmp/catch_$id.log && v=CAUGHT || v=MISSED
  echo "$id $p rc=$rc $v $(( $(date +%s)-s ))s"
done
