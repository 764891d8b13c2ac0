#!/bin/bash
# tryseed.sh SEED [CHECK...]: run the checks against a planted bug in /repo, then undo it.
s=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$s/patch.diff || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for c in ${*:-$p}; do
  /usr/bin/time -f %es python3 /verif/check.py $c > /tmp/ts.out 2>&1; echo "$s $c exit=$? $(tail -3 /tmp/ts.out | tr '\n' ' ')"
done
