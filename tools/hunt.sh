#!/bin/bash
# hunt.sh [id ...]: runs the property's quick check against each planted bug (in a scratch copy) and prints caught / missed.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=/tmp/hunt_$d
  rm -rf "$w"; cp -a /repo "$w"
  git -C "$w" apply "$PWD/seeded/$d/patch.diff" || { echo "$d NOAPPLY"; rm -rf "$w"; continue; }
  s=$(date +%s)
  MC_REPO="$w" ./check.sh $p > /tmp/hunt_$d.log 2>&1; rc=$?
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -o 'VIOLATION property=[A-Z0-9]*' /tmp/hunt_$d.log) $(grep -m1 -A1 VIOLATION /tmp/hunt_$d.log | tail -1 | cut -c1-150)"
  rm -rf "$w"
done
