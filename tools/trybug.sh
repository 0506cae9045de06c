#!/bin/bash
# trybug.sh ID...: apply a planted bug to /repo, run the quick check of its property (or of $CHECKS), undo
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  for c in ${CHECKS:-$p}; do
    VERIF_SEED=${VERIF_SEED:-1} python3 check.py $c > /tmp/trybug.out 2>&1; rc=$?
    echo "$id $c rc=$rc $(grep -m1 -A1 '^VIOLATION' /tmp/trybug.out | tr '\n' ' ' | cut -c1-200)"
  done
  git -C /repo checkout -- .
done
