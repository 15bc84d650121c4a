#!/bin/sh
# development aid: apply each planted bug to /repo, run its property's check, undo. usage: runseeds.sh [id ...]
cd /verif || exit 2
[ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$s/patch.diff" || { echo "$s NO-APPLY"; continue; }
  timeout 900 ./check "$p" quick > /tmp/runseed.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $(grep -c '^VIOLATION' /tmp/runseed.out) $(grep -m1 -A1 '^VIOLATION' /tmp/runseed.out | tail -1 | cut -c1-150)"
done
