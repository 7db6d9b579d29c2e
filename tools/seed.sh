#!/bin/bash
# tools/seed.sh ID: takes the uncommitted change in /tmp/seedrepo (scratch copy of /repo) as seeded bug ID, whose demo.sh and
# meta.json are in seeded/ID: it must build, pass the stable tests, and fail its demo only with the change.
S=/tmp/seedrepo; D=/verif/seeded/$1
cd $S || exit 2
[ "$2" = replay ] && { git checkout -q -- .; git apply $D/patch.diff || exit 2; }
git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 2; }
bash /tmp/sbuild.sh > /tmp/sb.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/sb.log; git checkout -q -- .; exit 1; }
bash /tmp/stest.sh /tmp/st.json > /tmp/st.log 2>&1
python3 - <<'P' || { echo "TESTS FAILED"; git checkout -q -- .; exit 1; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open('/tmp/st.json'))['passed'])
print('not passing:',b) if b else None
sys.exit(bool(b))
P
bash $D/demo.sh > /tmp/sd.log 2>&1; w=$?
git checkout -q -- .
bash /tmp/sbuild.sh > /tmp/sb.log 2>&1
bash $D/demo.sh > /tmp/sd0.log 2>&1; o=$?
echo "$1: demo with change $w, without $o"; [ $w != 0 ] && [ $o = 0 ] || { tail -qn 5 /tmp/sd.log /tmp/sd0.log; exit 1; }
