#!/bin/bash
# caught.sh NAME…: run the claimed check of planted bugs against /repo with the bug applied
cd /verif
for n in "$@"; do
  id=$(python3 -c "import json;print(json.load(open('seeded/$n/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$n/patch.diff || continue
  echo "$n $id: $(python3 check.py $id quick | grep '^VIOL\|quick:' | tr '\n' ' ')"
  git -C /repo checkout -- .
done
