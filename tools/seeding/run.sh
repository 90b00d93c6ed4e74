#!/bin/bash
# run.sh [ids]: for each seed apply to /repo, run its property's quick check, revert
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  [ -n "$P" ] && p=$P
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: APPLY FAILED"; continue; }
  s=$(date +%s)
  timeout 900 bash tools/check.sh $p quick > /tmp/seed/out.$id 2>&1; rc=$?
  git -C /repo checkout -- .
  v=$(grep -c "^VIOLATION property=$p" /tmp/seed/out.$id)
  echo "$id $p rc=$rc violations=$v $(( $(date +%s)-s ))s"
done
