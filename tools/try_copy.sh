#!/bin/bash
# try_copy.sh <id> [properties...]: demo and checks of seeded/<id> on a copy of /repo (no stable tests; try_bug.sh does those too)
id=$1; shift; v=$(cd "$(dirname "$0")/.." && pwd); d=$v/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=$(mktemp -d /tmp/try.XXXX); trap 'rm -rf $w' EXIT; mkdir $w/repo; cp -a /repo/src $w/repo/; cd $w/repo; python3 $v/slice/gen.py src _build/gen
( timeout 300 bash $d/demo.sh > $w/out1 2>&1 ); r0=$?
patch -s -p1 < $d/patch.diff || exit 2; python3 $v/slice/gen.py src _build/gen
( timeout 300 bash $d/demo.sh > $w/out2 2>&1 ); r1=$?
echo "$id property=$prop demo: clean=$r0 patched=$r1"; [ $r0 = 0 ] || tail -5 $w/out1; [ $r1 != 0 ] || tail -5 $w/out2
mkdir $w/v; cp -a $v/run.py $v/harness $v/shim $v/slice $v/known-findings.txt $w/v/
for p in ${@:-$prop}; do VERIF_REPO=$w/repo python3 $w/v/run.py $p quick > $w/check 2>&1; echo "  $p check=$?"; grep -a "FAILURE\|VIOLATION" $w/check | cut -c1-250 | head -2; done
