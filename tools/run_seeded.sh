#!/bin/bash
# run_seeded.sh [NAME...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd "$(dirname "$0")/.." || exit 2
[ $# = 0 ] && set -- $(ls seeded)
for n in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$n/meta.json'))['property'])")
  for id in ${ALSO:-$prop}; do
  git -C /repo apply "$PWD/seeded/$n/patch.diff" || { echo "$n: does not apply"; continue; }
  t=$(date +%s); out=$(bash check.sh $id quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$n $id rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -E 'violation class|VIOLATION' | cut -c1-150 | tr '\n' ' ')"
  [ $rc = 0 -o $rc = 1 ] || echo "$out" | tail -5
  done
done
