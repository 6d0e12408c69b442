#!/bin/bash
# tryseed.sh ID...: runs the check of the property against the seeded bug, in /repo, and undoes it.
cd "$(dirname "$0")/.." || exit 1
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo not clean"; exit 1; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  out=$(VERIF_SEED=${VERIF_SEED:-1} python3 check.py "${CHECK:-$p}" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -E 'violations:|TOOL' | cut -c1-220)"
done
