#!/bin/bash
# on.sh PATCH|none BUDGET CHECK... : run checks on a patched copy of /repo, in a
# mount namespace of its own, with a copy of /verif; neither is touched.
patch=$(readlink -f "$1" || echo "$1"); budget=$2; shift 2
d=$(mktemp -d /tmp/on.XXXXXX)
cp -a /repo $d/repo; (cd /verif && tar cf - --exclude=./seeded --exclude=./.git --exclude=./evidence . ) | (mkdir $d/verif && cd $d/verif && tar xf - && mkdir -p evidence)
[ -f "$patch" ] && { git -C $d/repo apply "$patch" || exit 9; }
unshare -Urm bash -c "
mount --bind $d/repo /repo; mount --bind $d/verif /verif; cd /verif
for c in $*; do
  VERIF_BUDGET_S=$budget timeout 900 python3 check.py \$c > /tmp/on.out.\$\$ 2>&1; rc=\$?
  echo \"\$(basename \$(dirname $patch))/\$(basename $patch) \$c rc=\$rc \$(grep -m2 '^VIOL ' /tmp/on.out.\$\$ | cut -c1-\${W:-260}) \"
  [ \$rc -le 1 ] || tail -5 /tmp/on.out.\$\$
done; rm -f /tmp/on.out.\$\$"
rm -rf $d
