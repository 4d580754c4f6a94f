#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks"  : takes the working-tree diff of /repo as the patch, demo.cpp from stdin
d=/verif/seeded/$1; mkdir -p $d
R=${SEEDREPO:-/repo}; git -C $R diff > $d/patch.diff; [ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
git -C $R checkout -q -- .
cp /verif/tools/seed_common/common.hpp /verif/tools/seed_common/demo.sh $d/
cat > $d/demo.cpp
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
P
