#!/bin/bash
# catch.sh NAME...: runs the quick check of the property of each planted bug against /repo with the bug.
cd /verif
for n in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$n/patch.diff" || { echo "$n does not apply"; continue; }
  s=$(date +%s)
  timeout 900 ./check.sh $p quick -noevidence > /tmp/catch.$n.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$n $p exit=$c $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/catch.$n.log | cut -c1-80) | $(grep -m1 '^counterexample' /tmp/catch.$n.log | cut -c1-140)"
done
