#!/bin/bash
# seedcheck.sh [ids..]: applies each planted bug to /repo, runs its property's check, undoes it
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  o=$(timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d ($p): rc=$rc $(echo "$o" | grep -E '^VIOLATION|failed obl|failing input|undecided:' | cut -c1-220 | tail -3 | tr '\n' '|')"
done
