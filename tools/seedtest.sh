#!/bin/bash
# tools/seedtest.sh ID [check...]   development helper: confirms a planted bug in a scratch copy of /repo
# (builds, passes the tests, demo passes without / fails with it) and runs the given checks on the copy.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; shift
W=/tmp/sw; mkdir -p $W
sync_() { mkdir -p $W/.x && git -C /repo archive HEAD | tar x -C $W/.x && rsync -rc --exclude=_build --exclude=.x --exclude='results/*.csv' $W/.x/ $W/ 2>/dev/null || true; }
sync_
[ -f $W/bt.sh ] || { sed "s#/repo#$W#g" /opt/vp/build.sh > $W/bt.sh; sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/bt.sh#" /opt/vp/test.sh > $W/tt.sh; }
cd $W
demo() { D=$(mktemp -d /tmp/demo.XXXX); cp -r $V/seeded/$ID/. $D; rm -f $D/*.diff $D/meta.json; (sed -i "s#/repo#$W#g" $D/demo.sh; cd $W; timeout 300 bash $D/demo.sh >/tmp/demo.log 2>&1); echo $?; rm -rf "$D"; }
if [ -z "$NODEMO" ]; then
bash bt.sh >/tmp/bt.log 2>&1 || { echo "base build failed"; exit 1; }
echo "demo unpatched: $(demo)"
fi
git apply --directory="" --unsafe-paths $V/seeded/$ID/patch.diff 2>/dev/null || patch -p1 -s < $V/seeded/$ID/patch.diff || { echo "patch does not apply"; exit 1; }
if [ -z "$NODEMO" ]; then
bash tt.sh /tmp/seed_out.json >/tmp/bt.log 2>&1; tail -1 /tmp/bt.log
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_out.json'))
s=set(b['stable'])
print('lost tests:', sorted(s-set(o['passed'])))
P
echo "demo patched: $(demo)"; tail -3 /tmp/demo.log
fi
for c in "$@"; do (cd $V && SLIDE_REPO=$W python3 check.py $c quick 2>&1 | grep -E "VIOLATION|^  P|new violation|check $c" | head -4); done
cd $W && patch -p1 -R -s < $V/seeded/$ID/patch.diff
