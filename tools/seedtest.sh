#!/bin/bash
# seedtest.sh ID : in a scratch copy: demo on clean tree, patch, build, stable tests, demo; then the registered check on /repo with the patch
# (the build and test scripts work on /repo itself, so they are run there and undone)
ID=$1; V=/verif; S=$V/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 9; }
cd /repo; bash $S/demo.sh >/tmp/sd0.log 2>&1; A=$?
git -C /repo apply $S/patch.diff || exit 9
if [ -z "$SKIPT" ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1; B=$?
bash /opt/vp/test.sh /tmp/st.json >/tmp/stt.log 2>&1
T=$(python3 -c "import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/st.json'));print('tests-lost:',sorted(set(b['stable'])-set(o['passed'])))")
fi
cd /repo; bash $S/demo.sh >/tmp/sd1.log 2>&1; C=$?
cd $V; timeout 900 python3-vt check.py $P > /tmp/sc.log 2>&1; K=$?
git -C /repo checkout -- .
echo "$ID prop=$P demo-clean=$A build=$B $T demo-patched=$C check=$K $(grep VIOLATION /tmp/sc.log)"
tail -2 /tmp/sd1.log
