#!/bin/bash
# trybug.sh ID...: for each seeded bug: demo on the clean tree, then with the patch: build, tests, demo, the property's check.
for id in "$@"; do
d=/verif/seeded/$id; cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
bash /opt/vp/build.sh >/tmp/bug-build.log 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
np=$(python3 -c "import json;print(len(json.load(open('/tmp/t.json'))['passed']))")
bash $d/demo.sh >/tmp/demo1.log 2>&1; r1=$?
[ -n "$NOCHECK" ] || { (cd /verif; VERIF_EVIDENCE=/tmp/ev timeout 900 python3 check.py $prop quick) >/tmp/bug-check.log 2>&1; rc=$?; }
git checkout -q -- .
echo "$id: prop=$prop demo clean=$r0 patched=$r1 build=$rb passed=$np check=$rc $(grep -c VIOLATION /tmp/bug-check.log) $(tail -1 /tmp/bug-check.log | cut -c1-150)"
grep -h "^$prop: [a-z_]*:" /tmp/bug-check.log | cut -c1-300
[ $r0 = 0 ] || tail -5 /tmp/demo0.log
done
bash /opt/vp/build.sh >/dev/null 2>&1
