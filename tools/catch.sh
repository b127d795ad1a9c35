#!/bin/bash
# tools/catch.sh [ID ...]: run the check of each planted bug's property with the bug applied
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  out=$(VERIF_SEED=${SEED:-1} timeout 900 python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit $rc $(echo "$out" | grep -m1 VIOLATION)"
done
