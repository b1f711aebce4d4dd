#!/bin/bash
# every quick check with other seeds on the unchanged tree: seeds.sh FROM TO [IDS...]; prints only what is not quiet
cd "$(dirname "$0")/.."; from=$1; to=$2; shift 2
ids=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || seq -f 'C%02g' 1 24)}
for s in $(seq $from $to); do for i in $ids; do VERIF_SEED=$s python3 run.py $i quick >/tmp/seed.$$ 2>&1; rc=$?; if [ $rc != 0 ]; then echo "seed $s $i rc=$rc"; tail -30 /tmp/seed.$$; fi; done; echo "seed $s done $(date +%T)"; done; rm -f /tmp/seed.$$
