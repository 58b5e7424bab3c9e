#!/bin/bash
# catch.sh [ids]: applies each planted bug to /repo in turn, runs its property's check, undoes it
cd "$(dirname "$0")/.."
for i in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || continue
  s=$(date +%s); o=$(timeout 900 python3-vt check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s) - s ))s $(grep -a ^VIOLATION <<<"$o" | head -1)"
done
