#!/bin/bash
# testr.sh [DIR]: the stable tests on the state of the clone DIR (default /tmp/r), over a scratch copy of /repo.
R=${1:-/tmp/r}; W=$(mktemp -d /tmp/seed_XXXXXX); cp -a /repo $W/repo; git -C $W/repo fetch -q $R HEAD && git -C $W/repo merge -q --ff-only FETCH_HEAD
export W
unshare -m bash -c 'mount --bind $W/repo /repo; cd /repo; bash /opt/vp/build.sh >$W/b 2>&1 || echo BUILD FAILS
bash /opt/vp/test.sh $W/t.json >$W/tl 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json"))["stable"]; t=json.load(open("$W/t.json"))
m=sorted(set(b)-set(t["passed"])); print("stable missing:", len(m), m[:5])
P
'
rm -rf "$W"
