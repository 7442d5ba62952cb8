#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property against a patched copy
for id in "$@"; do
    W=/tmp/catch_$id; rm -rf $W; mkdir -p $W; cp -a /repo/include /repo/src $W/
    (cd $W && git apply /verif/seeded/$id/patch.diff) || continue
    p=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
    PAPILIO_REPO=$W VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 run.py $p > /tmp/catch_$id.log 2>&1; rc=$?
    echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/catch_$id.log) $(grep '^VIOLATION' /tmp/catch_$id.log | head -1)"
    rm -rf $W
done
