#!/bin/bash
# seedcheck.sh ID [check ...]: a scratch copy of /repo with the seeded change, and the checks run on it (/repo itself stays as it is)
id=$1; shift; d=/verif/seeded/$id
w=$(mktemp -d /tmp/seedcheck.XXXXXXXX); trap 'rm -rf -- "$w"' EXIT
git -C /repo archive HEAD | tar -x -C "$w"; cd "$w" && git init -q . && git apply "$d/patch.diff" || exit 2
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif
for c in ${@:-$p}; do VP_REPO=$w python3-vt vp/check.py $c --jobs ${JOBS:-8} 2>/dev/null | egrep -v "^extraction" | head -${LINES_:-6} | cut -c1-230 | sed "s/^/$id: /"; done
