#!/bin/bash
# tools/caught.sh ID...: which planted changes does their property's quick check report (patch applied to /repo, then undone)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: PATCH-FAILS"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
done
