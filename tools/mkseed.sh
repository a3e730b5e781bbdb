#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks" : store the scratch tree's diff as a planted bug
V=/verif; S=/tmp/s/repo
mkdir -p $V/seeded/$1
git -C $S diff > $V/seeded/$1/patch.diff
git -C $S checkout -q -- .
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
