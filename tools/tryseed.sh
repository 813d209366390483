#!/bin/bash
# tryseed.sh ID [nobuild]: demo clean, demo patched, check patched; leaves /repo clean
ID=$1; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 1; }
$S/demo.sh >/tmp/seed_$ID.clean 2>&1; a=$?
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
$S/demo.sh >/tmp/seed_$ID.bad 2>&1; c=$?
t=-
if [ "$2" = test ]; then bash /opt/vp/test.sh /tmp/seed_$ID.json >/dev/null 2>&1; t=$(python3 -c "
import json;d=json.load(open('/tmp/seed_$ID.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=d.get('passed',d);print('miss:',[x for x in s if x not in p])"); fi
cd /verif; timeout 900 python3-vt check.py $P >/tmp/seed_$ID.chk 2>&1; k=$?
cd /repo; git checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
echo "$ID $P demo_clean=$a build=$b demo_bad=$c tests=$t check=$k $(grep -c ^VIOLATION /tmp/seed_$ID.chk)"
