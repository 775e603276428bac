#!/bin/bash
# Development helper: go.sh SCALE "FLAVOURS" HARNESS...   (env SEED TIER ONLY)
cd /verif; sc=$1; fls=$2; shift 2
t=""; for h in "$@"; do for fl in $fls; do t="$t $fl/$h"; done; done
python3 build.py $t 2>&1 | grep -A12 -E "error|FAILED|undefined" | head -${LINES_:-40}
for h in "$@"; do for fl in $fls; do d=/tmp/r/$fl-$h; rm -rf $d; mkdir -p $d
[ -x build/$fl/$h ] || continue
TSAN_OPTIONS=halt_on_error=1:exitcode=66 ASAN_OPTIONS=detect_leaks=0:max_allocation_size_mb=8000:handle_abort=0 ./build/$fl/$h --scale $sc --out $d/o.json --dir $d --seed ${SEED:-1} --tier ${TIER:-quick} ${ONLY:+--only $ONLY}; rc=$?; echo "== $fl/$h rc=$rc"; cut -c1-1800 $d/failure.txt 2>/dev/null
[ -f $d/o.json ] && python3 -c "
import json;j=json.load(open('$d/o.json'));print(j['evaluations'],'evals',j['distinct_nontrivial'],'nontriv',j['discarded'],'disc',round(j['wall_s'],2),'s')
for k,v in j['subchecks'].items(): print('  ',k,v['evaluations'],v['nontrivial'],{a:b for a,b in v['labels'].items() if a[:4] not in ('type','simd')} if '${L:-1}'=='1' else '')"; done; done
