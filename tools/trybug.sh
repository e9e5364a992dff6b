#!/bin/bash
# trybug.sh DIR [CHECKID...]: confirm a planted change (DIR/patch.diff, DIR/demo.sh): builds, stable tests pass,
# demo passes without and fails with it; then run the given checks against it. /repo is restored afterwards.
d=$(realpath "$1"); shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
undo(){ git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; }
if [ -z "$SKIPDEMO" ]; then bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "base build failed"; exit 2; }
t=$(mktemp -d); cp -a $d/. $t; rm -f $t/*.diff $t/meta.json
bash $t/demo.sh >$t/out0 2>&1; echo "demo on base: rc=$?"; fi
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
trap undo EXIT
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh >/tmp/bb.log 2>&1 || { tail -5 /tmp/bb.log; echo "BUILD FAILED"; exit 2; }
bash $t/demo.sh >$t/out1 2>&1; echo "demo with patch: rc=$?"; tail -2 $t/out1; rm -rf "$t"
fi
if [ -z "$SKIPTEST" ]; then bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1; python3 -c "
import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);r=json.load(open('/tmp/tb.json'));m=sorted(b-set(r['passed']));print('stable tests: %d of %d pass'%(len(b)-len(m),len(b)),m[:8])"; fi
for c in "$@"; do /verif/check.py $c | tail -${TAIL:-3}; echo "check $c rc=${PIPESTATUS[0]}"; done
