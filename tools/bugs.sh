#!/bin/bash
# usage: tools/bugs.sh [ID...]   runs the quick check of each planted bug's property against a patched copy of /repo
cd "$(dirname "$0")/.." || exit 1
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
for i in "${ids[@]}"; do
  d=$(mktemp -d); cp -a /repo "$d/repo"; git -C "$d/repo" apply "$PWD/seeded/$i/patch.diff" || { echo "$i DOES NOT APPLY"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$i/meta.json'))['property'])")
  s=$(date +%s)
  VERIF_REPO="$d/repo" ./check "$p" quick >"$d/out" 2>&1; rc=$?
  echo "$i $p rc=$rc $(($(date +%s)-s))s $(grep -m1 -A1 VIOLATION "$d/out" | tail -1 | cut -c1-160)"
  [ $rc -ne 1 ] && tail -3 "$d/out"
  rm -rf "$d"
done
