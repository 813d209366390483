#!/bin/bash
# tryseed2.sh ID [CHECK..]: as tryseed.sh for Python-only changes, in a scratch copy of /repo
ID=$1; shift; S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
T=$(mktemp -d /tmp/ts_XXXX); cp -a /repo $T/r; cd $T/r
$S/demo.sh >/tmp/seed_$ID.clean 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID does not apply"; exit 1; }
$S/demo.sh >/tmp/seed_$ID.bad 2>&1; c=$?
cd /verif
for q in $P $*; do
VERIF_GRACE_S=1 EDPYT_REPO=$T/r timeout 900 python3-vt check.py $q >/tmp/seed_$ID.chk 2>&1; k=$?
echo "$ID $q demo_clean=$a demo_bad=$c check=$k $(grep -c ^VIOLATION /tmp/seed_$ID.chk) $(grep -A1 ^VIOLATION /tmp/seed_$ID.chk | sed -n 2p | cut -c1-160)"
done
rm -rf $T
