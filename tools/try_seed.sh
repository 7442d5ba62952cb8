#!/bin/bash
# try_seed.sh ID...: in a copy of /repo, checks that a planted bug builds, passes
# the stable tests, and that its demonstration tells the two trees apart.
set -u
W=/tmp/seed_wt
mkdir -p $W
rsync -a --delete --exclude .git --exclude _build /repo/ $W/
sed "s#/repo#$W#g" /opt/vp/build.sh > /tmp/seed_build.sh
for id in "$@"; do
    S=/verif/seeded/$id
    T=$(mktemp -d /tmp/demo.XXXX); cp $S/* $T/; rm -f $T/*.diff $T/meta.json
    (cd /repo && timeout 300 bash $T/demo.sh >/tmp/seed_$id.ok 2>&1); a=$?
    (cd $W && git apply $S/patch.diff) || { echo "$id: patch does not apply"; continue; }
    sed "s#/repo#$W#g; s#/opt/vp/build.sh#/tmp/seed_build.sh#" /opt/vp/test.sh > /tmp/seed_test.sh
    grep -q results.py /tmp/seed_test.sh || true
    bash /tmp/seed_test.sh /tmp/seed_$id.json >/tmp/seed_$id.log 2>&1; 
    (cd $W && timeout 300 bash $T/demo.sh >/tmp/seed_$id.bad 2>&1); b=$?
    python3 - "$id" $a $b <<'P'
import json, sys
id, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
r = json.load(open('/tmp/seed_%s.json' % id)); base = json.load(open('/opt/vp/BASELINE.json'))
base = base.get('stable', base) if isinstance(base, dict) else base
miss = sorted(set(map(str, base)) - set(map(str, r['passed'])))
print(id, 'OK' if a == 0 and b != 0 and not miss else 'BAD', 'demo clean=%d patched=%d' % (a, b), 'tests lost: %s' % miss[:5])
P
    (cd $W && git apply -R $S/patch.diff)
    rm -rf $T
done
