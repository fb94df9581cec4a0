#!/bin/bash
# run_all.sh [PATCH]: every quick check, on /repo as it is or with PATCH applied (and undone afterwards).
cd "$(dirname "$0")/.." || exit 2
if [ -n "$1" ]; then git -C /repo apply "$1" || exit 2; trap 'git -C /repo checkout -q -- .' EXIT; fi
for c in C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11; do
  out=$(bash check.sh $c quick 2>&1); echo "rc=$? $(echo "$out" | tail -1 | cut -c1-220)"
done
