#!/bin/bash
# Development aid: runs each planted bug's own check against it (or the checks named in CHECKS). usage: try_seeds.sh [id...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply seeded/$d/patch.diff 2>/dev/null || git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  for c in ${CHECKS:-$p}; do
    python3 tools/check.py $c quick > /tmp/try.$d.$c 2>&1; rc=$?
    echo "$d: $c exit $rc, $(grep -c '^  [a-z]' /tmp/try.$d.$c) reports; $(grep '^  [a-z]' /tmp/try.$d.$c | head -2 | cut -c1-200 | tr '\n' ';')"
  done
  git -C /repo checkout -- .
done
