#!/bin/bash
# tryseed.sh ID [check ...]: demo on the clean tree, then patch, build, tests, demo, checks; always restores /repo
id=$1; shift; d=/verif/seeded/$id
cd /repo || exit 2
git diff --quiet || { echo "/repo is dirty"; exit 2; }
if [ -z "$NOTEST" ]; then bash $d/demo.sh >/tmp/try.$id.clean 2>&1; echo "$id demo clean: $?"; fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh >/tmp/try.$id.build 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/try.$id.json >/tmp/try.$id.test 2>&1; tail -1 /tmp/try.$id.test
bash $d/demo.sh >/tmp/try.$id.bug 2>&1; echo "$id demo patched: $?"; tail -2 /tmp/try.$id.bug
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif
for c in ${@:-$p}; do python3-vt vp/check.py $c 2>/dev/null | egrep -v "^extraction" | head -6 | cut -c1-260; done
