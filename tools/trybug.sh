#!/bin/bash
# trybug.sh <bug> [ID...]: apply a planted bug to /repo, run the checks (default: its property), undo
B="$1"; shift
P="/verif/seeded/$B"
IDS="$*"; [ -n "$IDS" ] || IDS=$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")
git -C /repo apply "$P/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for i in $IDS; do
  cd /verif; o=$(timeout 900 ./check.sh $i 2>&1); rc=$?
  echo "$B $i rc=$rc $(echo "$o" | grep -A2 -m1 VIOLATION | tr '\n' ' ' | cut -c1-${W:-420})"
  [ $rc = 2 ] && echo "$o" | tail -5
done
