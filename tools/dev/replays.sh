#!/bin/bash
# replays.sh ID... : for each seeded bug, run its check on a patched copy, replay
# the file it reports twice, and compare; then replay it on the unpatched copy.
for id in "$@"; do
d=$(mktemp -d /tmp/on.XXXXXX)
cp -a /repo $d/repo; (cd /verif && tar cf - --exclude=./seeded --exclude=./.git --exclude=./evidence . ) | (mkdir $d/verif && cd $d/verif && tar xf - && mkdir -p evidence)
c=${id%%-*}
git -C $d/repo apply /verif/seeded/$id/patch.diff || exit 9
unshare -Urm bash -c "
mount --bind $d/repo /repo; mount --bind $d/verif /verif; cd /verif
VERIF_BUDGET_S=${B:-20} timeout 900 python3 check.py $c > $d/out 2>&1; rc=\$?
f=\$(grep -m1 '^VIOLATION' $d/out | sed 's/.*replay=//')
[ -n \"\$f\" ] || { echo $id rc=\$rc NO-REPLAY; exit; }
sz=\$(stat -c %s \$f)
timeout 300 python3 check.py --replay \$f > $d/r1 2>&1; a=\$?
timeout 300 python3 check.py --replay \$f > $d/r2 2>&1; b=\$?
same=\$(cmp -s $d/r1 $d/r2 && echo same || echo DIFF)
git -C /repo checkout -q -- .
timeout 300 python3 check.py --replay \$f > $d/r3 2>&1; k=\$?
echo $id rc=\$rc size=\$sz replays=\$a,\$b \$same unpatched=\$k \$(grep -m1 '^VIOL ' $d/r1 | cut -c1-140)
"
rm -rf $d
done
