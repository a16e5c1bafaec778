#!/bin/bash
# catch.sh ID...: runs each planted bug's check with the change applied in /repo
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  python3 check.py $p > /tmp/catch_$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p: exit $rc $(grep -c '^VIOLATION' /tmp/catch_$id.log) $(grep '^VIOLATION' /tmp/catch_$id.log | cut -c1-150) | $(grep -m1 'failing input:\|^failed obl' /tmp/catch_$id.log | cut -c1-200)"
done
