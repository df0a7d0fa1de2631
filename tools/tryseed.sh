#!/bin/bash
# tools/tryseed.sh ID...: runs the check of each planted bug against a scratch copy.
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/try-$id
  rm -rf "$w"; mkdir "$w"; cp -a /repo/include /repo/src "$w"/
  (cd "$w" && patch -s -p1 < $d/patch.diff) || { echo "$id patch failed"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  s=$(date +%s)
  out=$(cd /verif && VF_REPO=$w VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep VIOLATION)"
  [ $rc = 1 ] || echo "$out" | tail -5
  rm -rf "$w"
done
