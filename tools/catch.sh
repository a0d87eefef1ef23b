#!/bin/bash
# dev tool: catch.sh <seed>... : run the seed's property check against a patched scratch copy of /repo's sources
for s in "$@"; do
 d=/verif/seeded/$s; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 W=$(mktemp -d /tmp/catch_XXXX); cp -a /repo/emp-tool $W/; (cd $W && git init -q . && git apply $d/patch.diff) || echo APPLYFAIL
 out=$(cd /verif && VC_REPO=$W VC_BUILD=$W/build VC_EVID=$W timeout 900 python3-vt check.py $p 2>&1); rc=$?
 echo "$s $p rc=$rc $(echo "$out" | grep -m1 VIOLATION) $(echo "$out" | grep -m1 'FAILED' | cut -c1-200)"
 rm -rf $W
done
