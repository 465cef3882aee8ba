#!/bin/bash
# tools/catch.sh [id...]: which seeded bugs does the own property's check catch (scratch copy of /repo)?
cd "$(dirname "$0")/.."
D=$(mktemp -d /tmp/catchXXXX); cp -a /repo "$D/repo"
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C "$D/repo" checkout -q -- pyoptmat && git -C "$D/repo" apply "$PWD/seeded/$d/patch.diff" || { echo "$d PATCH"; continue; }
  o=$(PVC_REPO="$D/repo" PVC_OUT="$D/out" ./run $p quick 2>&1); rc=$?
  echo "$d $p exit=$rc $(echo "$o" | grep -c VIOLATION) violations, $(echo "$o" | grep VIOLATION | grep -vc no-failing) with input"
done
rm -rf "$D"
