#!/bin/bash
# catch.sh ID...: applies each planted bug in the scratch copy /tmp/sd and runs the check of its property against that copy
[ $# -gt 0 ] || set -- $(ls /verif/seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  (cd /tmp/sd && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply /verif/seeded/$id/patch.diff) || { echo "$id DOES NOT APPLY"; continue; }
  s=$(date +%s)
  VERIF_REPO=/tmp/sd VERIF_TIER=quick VERIF_SEED=1 node /verif/bin/check.mjs $p > /tmp/catch.$id.log 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c "^VIOLATION property=$p" /tmp/catch.$id.log) $(( $(date +%s) - s ))s"
  (cd /tmp/sd && git checkout -q -- .)
done
