#!/bin/bash
# mkseed.sh ID : the seed's change has been made in /tmp/seedwork (a copy of /repo); its demo files are in /verif/seeded/ID.
# Writes patch.diff, confirms: builds, stable tests pass, demo 0 clean / nonzero patched.
id=$1; W=/tmp/seedwork; D=/verif/seeded/$id
git -C $W diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
git -C /repo status --short | grep -q . && { echo "repo dirty"; exit 1; }
X=/tmp/seeddemo; rm -rf /tmp/seeddemo; mkdir -p $X; cp $D/* $X/; rm -f $X/patch.diff $X/meta.json
cd /repo; bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build failed"; exit 1; }
(timeout 300 bash $X/demo.sh >/tmp/seeddemo.clean 2>&1); c=$?
git -C /repo apply $D/patch.diff || { echo "no apply"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.build 2>&1
(timeout 300 bash $X/demo.sh >/tmp/seeddemo.patched 2>&1); p=$?
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
st=b.get('stable') or b.get('passed') or b
miss=[t for t in st if t not in set(r['passed'])]
print('$id', 'clean=$c patched=$p', 'tests', len(r['passed']), 'missing', miss[:5])
print('SEED-OK' if $c==0 and $p!=0 and not miss else 'SEED-BAD')
PY
tail -3 /tmp/seeddemo.patched
