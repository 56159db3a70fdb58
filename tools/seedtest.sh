#!/bin/bash
# seedtest.sh ID [notest]: confirms seeded/ID in a scratch copy mounted over /repo:
# the demo passes unchanged, fails with the patch, and the stable tests still pass.
id=$1; S=/verif/seeded/$id
R=${SEED_REPO:-/repo}; W=$(mktemp -d /tmp/seed_XXXXXX)
cp -a $R $W/repo; cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
export W S
unshare -m bash -c '
mount --bind $W/repo /repo; cd /repo
bash $W/demo/demo.sh >$W/d0 2>&1; echo "demo unchanged: $?"
git apply $S/patch.diff || { echo PATCH FAILS; exit 1; }
bash $W/demo/demo.sh >$W/d1 2>&1; echo "demo patched: $?"; tail -3 $W/d1
[ "'$2'" = notest ] && exit
bash /opt/vp/build.sh >$W/b 2>&1 || echo BUILD FAILS
bash /opt/vp/test.sh $W/t.json >$W/tl 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; t=json.load(open("$W/t.json"))
m=sorted(set(b)-set(t["passed"])); print("stable missing:", len(m), m[:5])
P
'
rm -rf "$W"
