#!/bin/bash
# det.sh DIR [PROP] : apply seeded bug to /repo, run its check (budget 45), undo
cd /verif
d=seeded/$1
p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo apply /verif/$d/patch.diff || exit 9
t=$(date +%s)
VERIF_BUDGET_S=${B:-45} timeout 900 python3 check.py $p > /tmp/det.out 2>&1; rc=$?
git -C /repo checkout -- .
echo "$1 $p rc=$rc $(( $(date +%s)-t ))s $(grep -m1 '^VIOL ' /tmp/det.out | cut -c1-${W:-220})"
[ $rc = 1 ] || tail -3 /tmp/det.out
