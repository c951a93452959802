#!/bin/bash
# usage: trybug.sh <id> [secs]: applies the planted bug to /repo, runs its property's check, undoes it
I=$1; S=/verif/seeded/$I; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo dirty"; exit 9; }
git -C /repo apply $S/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
s=$(date +%s)
SIM_SECS=${2:-60} bash /verif/check.sh $P quick > /tmp/seedwork/$I.check 2>&1; rc=$?
echo "$I $P rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -o 'VIOLATION property.*' /tmp/seedwork/$I.check)"
