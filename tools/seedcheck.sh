#!/bin/bash
# seedcheck.sh ID...: does the property's quick check catch seeded/ID?
# Runs in a private mount namespace, over a scratch copy; /repo is not touched.
for id in "$@"; do
S=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed_XXXXXX); cp -a /repo $W/repo; cp -a /verif $W/verif; export W S P
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo; git apply $S/patch.diff || echo PATCH FAILS
cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 bin/check.py $P >$W/out 2>&1; rc=$?
echo "'$id' $P rc=$rc $(grep -c ^VIOLATION $W/out)"; [ $rc = 1 ] || tail -3 $W/out; grep -m2 " event " $W/out | cut -c1-300'
rm -rf "$W"; done
