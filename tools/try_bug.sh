#!/bin/bash
# try_bug.sh <bug id> [check ids...]: demo on the clean tree, then build, tests,
# demo and checks with the bug applied to /repo; always undone afterwards.
V=$(cd "$(dirname "$0")/.." && pwd)
b=$1; shift
d=$V/seeded/$b
git -C /repo diff --quiet || { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$NOCLEAN" ] && { (cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/tb.$b.clean 2>&1; echo "$b demo clean rc $?"); }
git -C /repo apply $d/patch.diff || exit 3
trap 'git -C /repo checkout -- .' EXIT
(cd /repo && bash /opt/vp/build.sh >/tmp/tb.build 2>&1 || echo "BUILD FAILED"; bash $d/demo.sh >/tmp/tb.$b.bug 2>&1; echo "$b demo bug rc $?"; tail -2 /tmp/tb.$b.bug)
[ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.test 2>&1; tail -1 /tmp/tb.test; }
for c in ${@:-$prop}; do
  (cd $V && timeout 900 ./check $c quick > /tmp/tb.$b.$c 2>&1; echo "$b check $c rc $?"; grep -A1 VIOLATION /tmp/tb.$b.$c | head -4)
done
