#!/bin/bash
# trybug2.sh ID...: as trybug.sh, but in a scratch copy of /repo and without the
# baseline build and tests.
W=${TB_DIR:-/tmp/tb}; mkdir -p $W/repo
for id in "$@"; do
d=/verif/seeded/$id
rsync -a --delete --exclude=.git --exclude=_build /repo/ $W/repo/ 2>/dev/null || { rm -rf $W/repo; mkdir -p $W/repo; (cd /repo && tar cf - --exclude=./.git --exclude=./_build .) | tar xf - -C $W/repo; }
cd $W/repo
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash $d/demo.sh >$W/demo0.log 2>&1; r0=$?
patch -s -p1 < $d/patch.diff || { echo "$id: patch does not apply"; continue; }
bash $d/demo.sh >$W/demo1.log 2>&1; r1=$?
s=$(date +%s)
[ -n "$NOCHECK" ] || { (cd /verif; VERIF_REPO=$W/repo VERIF_BUILD=$W/build VERIF_EVIDENCE=$W/ev VERIF_RUN=$W/run timeout 900 python3 check.py $prop quick) >$W/check.log 2>&1; rc=$?; }
echo "$id: prop=$prop demo clean=$r0 patched=$r1 check=$rc $(($(date +%s)-s))s $(grep -c VIOLATION $W/check.log) $(tail -1 $W/check.log | cut -c1-150)"
grep -h "^$prop: [a-z_]*:" $W/check.log | cut -c1-300
[ $r0 = 0 ] || tail -5 $W/demo0.log
done
