#!/bin/bash
# developer helper: newseed.sh ID  - records the working-tree change of scratch copy /tmp/seed/repo as seeded/ID
# (demo.cpp and meta.json are expected in seeded/ID already)
ID=$1; S=/verif/seeded/$ID; W=/tmp/seed/repo
mkdir -p $S/stubs; cp /verif/stubs/{shm,affinity,demangle.hpp} $S/stubs/
[ -f $S/demo.sh ] || cp /verif/tools/demo.sh $S/demo.sh
git -C $W diff > $S/patch.diff
