#!/bin/bash
# runs each seed's check; args: ids (default all)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAIL"; continue; }
  s=$(date +%s); out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep VIOLATION | head -1) $( [ $rc -gt 1 ] && echo "$out" | tail -3)"
done
