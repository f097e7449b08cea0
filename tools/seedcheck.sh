#!/bin/bash
# seedcheck.sh [id...]: run each planted bug's own check (ALL=1: every check) against /repo with the bug applied
cd /verif || exit 1
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  [ -n "$ALL" ] && ps=$(seq -f 'C%02g' 1 22) || ps=$p
  for q in $ps; do
    t0=$SECONDS
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py "$q" > /tmp/seedcheck.log 2>&1; rc=$?
    echo "$id $q rc=$rc $((SECONDS - t0))s $(grep -m1 VIOLATION /tmp/seedcheck.log)"
  done
  git -C /repo checkout -q -- .
done
