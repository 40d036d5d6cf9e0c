#!/bin/bash
# developer helper: tryseed.sh ID...  - in a scratch copy: demo before, build, tests, demo after, then the property's check
for ID in "$@"; do
S=/verif/seeded/$ID; W=/tmp/seed/try-$ID
rm -rf $W; mkdir -p /tmp/seed; git clone -q /repo $W || exit 1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
( cd $W && bash $S/demo.sh >/tmp/seed/$ID.d0 2>&1 ); A=$?
git -C $W apply $S/patch.diff || { echo "$ID: patch does not apply"; continue; }
( cd $W && bash $S/demo.sh >/tmp/seed/$ID.d1 2>&1 ); B=$?
( cd /verif && VERIF_REPO=$W python3 run.py check $P --tier quick >/tmp/seed/$ID.chk 2>&1 ); C=$?
echo "$ID: demo clean=$A patched=$B  check $P exit=$C $(grep -m1 -E '^scenario|VIOLATION' /tmp/seed/$ID.chk | cut -c1-150)"
rm -rf $W
done
