#!/bin/bash
# tries every planted bug with the check of its property, from scratch copies of /repo (by hand; no check uses this)
W=$(mktemp -d /tmp/catches-XXXX)
for d in "${@:-/verif/seeded/*/}"; do for x in $d; do
  x=${x%/}; id=$(basename $x); p=$(python3 -c "import json;print(json.load(open('$x/meta.json'))['property'])")
  cp -a /repo $W/$id; git -C $W/$id apply $x/patch.diff || { echo "$id $p does not apply"; continue; }
  find $W/$id/quantities -name __pycache__ -prune -exec rm -rf {} +
  (cd /verif; PYTHONPATH=$W/$id PYTHONDONTWRITEBYTECODE=1 python3 check.py $p > $W/out 2>&1); rc=$?
  echo "$id $p $([ $rc = 1 ] && echo caught: "$(grep -A1 -m1 VIOLATION $W/out | tail -1 | cut -c1-60)" || echo MISSED rc=$rc)"
  rm -rf "$W/$id"
done; done
rm -rf "$W"
