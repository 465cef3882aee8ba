#!/bin/bash
# runs every check of the manifest, prints the last line and the time of each
cd "$(dirname "$0")/.."
for c in ${@:-$(ls contracts/c[0-9]*.py | sed 's/.*\/c\([0-9]*\)_.*/C\1/')}; do
  s=$(date +%s); out=$(./run $c 2>&1); rc=$?
  echo "$c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | tail -1 | cut -c1-160)"
  [ $rc = 0 ] || echo "$out" | grep VIOLATION
done
