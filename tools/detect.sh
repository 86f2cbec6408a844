#!/bin/bash
# usage: detect.sh <id>...   run the quick check of each planted change's property against it
# VERIF=<copy of /verif>: run the checks of that copy
for id in "$@"; do
  s=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply $s/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s)
  (cd "${VERIF:-/verif}" && timeout 900 python3 run.py $prop quick > /tmp/d.$id 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(( $(date +%s) - t ))s $(grep -a '^VIOLATION' /tmp/d.$id | head -1) $(grep -a -B2 '^VIOLATION' /tmp/d.$id | head -1 | cut -c1-150)"
done
