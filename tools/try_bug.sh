#!/bin/bash
# try_bug.sh <id>: applies seeded/<id>/patch.diff to /repo, builds, runs the stable tests, the demo and the check; undoes it
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh > /dev/null 2>&1; tmp=$(mktemp -d /tmp/demo.XXXX); cp -r $d/. $tmp; rm -f $tmp/patch.diff $tmp/meta.json
( timeout 300 bash $tmp/demo.sh > $tmp/out1 2>&1 ); r0=$?
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh > /dev/null 2>&1; rm -rf $tmp' EXIT
bash /opt/vp/build.sh > $tmp/build 2>&1; rb=$?
t=$(bash /opt/vp/test.sh $tmp/t.json 2>&1 | tail -1)
( timeout 300 bash $tmp/demo.sh > $tmp/out2 2>&1 ); r1=$?
cd /verif; VERIF_SEED=${VERIF_SEED:-1} python3 run.py $prop quick > $tmp/check 2>&1; rc=$?
echo "$id property=$prop build=$rb tests='$t' demo: clean=$r0 patched=$r1 check=$rc"
[ $r0 = 0 ] || tail -5 $tmp/out1; [ $r1 != 0 ] || tail -5 $tmp/out2; [ $rb = 0 ] || tail -20 $tmp/build
grep -a "FAILURE\|  case:\|VIOLATION" $tmp/check | cut -c1-300 | head -4; [ $rc = 1 ] || tail -5 $tmp/check
