#!/bin/bash
# newbug.sh ID [quick]: take the uncommitted change in /repo as the planted bug
# ID, run demo with and without it, tests with it, the check with it; revert
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -u /verif/tools/seed/demo.sh /verif/tools/seed/demo.h $D/
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > $D/patch.diff; git -C /repo checkout -- .; fi
run() { bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/build.log; return; }; (cd /repo; bash $D/demo.sh); echo "demo $1: $?"; }
run clean
git -C /repo apply $D/patch.diff || exit 1
run bug
cd /verif; ./check $P quick | tail -3
[ "$2" = quick ] || bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1
git -C /repo checkout -- .
bash /opt/vp/build.sh >/dev/null 2>&1
