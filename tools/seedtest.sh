#!/bin/bash
# seedtest.sh ID [all]: verify seeded/ID in a scratch copy of /repo and run its property's check (all: every check) there
ID=$1
V=/verif
S=/tmp/s/repo
mkdir -p /tmp/s
if [ ! -d $S ]; then cp -a /repo $S; fi
cd $S && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
sed "s#/repo#$S#g" /opt/vp/env.sh > /tmp/s/env.sh
sed "s#/repo#$S#g; s#/opt/vp/env.sh#/tmp/s/env.sh#g" /opt/vp/build.sh > /tmp/s/build.sh
sed "s#/repo#$S#g; s#/opt/vp/env.sh#/tmp/s/env.sh#g" /opt/vp/test.sh > /tmp/s/test.sh
if [ -z "$SKIPBASE" ]; then
bash /tmp/s/build.sh >/tmp/s/b.log 2>&1 || { echo "$ID base build FAILED"; exit 1; }
bash $V/seeded/$ID/demo.sh >/tmp/s/demo0.log 2>&1; d0=$?
fi
git apply $V/seeded/$ID/patch.diff || { echo "$ID patch does not apply"; exit 1; }
bash /tmp/s/build.sh >/tmp/s/b.log 2>&1 || { echo "$ID build FAILED"; tail -20 /tmp/s/b.log; git checkout -q -- .; exit 1; }
t=$(bash /tmp/s/test.sh /tmp/s/o.json 2>/dev/null| tail -1)
bash $V/seeded/$ID/demo.sh >/tmp/s/demo1.log 2>&1; d1=$?
props=$P
[ "$2" = all ] && props=$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']))")
for p in $props; do
VERIF_REPO=$S python3 $V/run.py $p quick > /tmp/s/c.log 2>&1; c=$?
echo "$ID: demo base=$d0 patched=$d1 tests='$t' check $p=$c $(grep -E '^  [a-z]' /tmp/s/c.log | head -2 | cut -c1-260 | tr '\n' '|')"
done
git checkout -q -- .
