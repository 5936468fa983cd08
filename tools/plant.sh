#!/bin/bash
# plant.sh <id> [notest]: applies seeded/<id>, builds, runs the stable tests, the demo and the property's quick check, reverts.
d=/verif/seeded/$1; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "clean build failed"; exit 2; }
bash $d/demo.sh >/tmp/demo0.log 2>&1; c0=$?
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/pb.log; exit 1; }
bash $d/demo.sh >/tmp/demo1.log 2>&1; c1=$?
t="tests skipped"
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/pt.json >/dev/null 2>&1; t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/pt.json'));f=[x for x in b['stable'] if x not in t['passed']];print('tests ok' if not f else 'TESTS FAIL '+' '.join(f))"); fi
cd /verif; python3 run.py $p quick >/tmp/pc.log 2>&1; rc=$?
echo "$1 $p: demo clean=$c0 planted=$c1; $t; check exit=$rc: $(grep -m1 -B1 VIOLATION /tmp/pc.log | head -1 | cut -c1-260)"
