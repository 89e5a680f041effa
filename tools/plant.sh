#!/bin/bash
# plant.sh ID [-q]: confirms a planted bug against /repo's working tree and runs
# the property's quick check on it.  Restores the tree.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "dirty tree"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
t=$(mktemp -d /tmp/plant.XXXXXX); cp $d/* $t/; rm -f $t/*.diff $t/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
(bash $t/demo.sh >$t/out0 2>&1); a=$?
git apply $d/patch.diff || { echo "$id: does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "$id: BUILD FAILS"; tail -5 /tmp/plant.build; exit 1; }
tests=$(bash /opt/vp/test.sh $t/o.json 2>&1 | tail -1)
(timeout 300 bash $t/demo.sh >$t/out1 2>&1); b=$?
out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check $prop 2>&1); c=$?
echo "$id $prop: clean demo=$a patched demo=$b tests=[$tests] check=$c $(echo "$out" | grep -c '^VIOLATION property='$prop' ')"
[ $a = 0 ] || tail -15 $t/out0
[ "$2" = -v ] && { tail -15 $t/out1; echo "$out" | cut -c1-300 | tail -8; }
rm -rf $t
exit 0
