#!/bin/bash
# trybug.sh ID: with the recorded patch: build, stable tests, demo; then undone
set -u
d=/verif/seeded/$1
cd /repo; git diff --quiet || { echo "repo not clean"; exit 1; }
[ "${2:-}" = nodemo0 ] || { bash $d/demo.sh >/tmp/demo0.log 2>&1; echo "$1 demo unchanged: $?"; }
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/bb.log 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 -c "
import json;d=json.load(open('/tmp/t.json'));print('tests passed',len(d['passed']),'failed',d['failed'])"
bash $d/demo.sh >/tmp/demo1.log 2>&1; echo "$1 demo patched: $?"
if [ "${2:-}" = check -o "${3:-}" = check ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); (cd /verif; VP_DETAIL=200 python3 bin/check.py $p 2>&1 | grep -v counters | tail -8)
fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/bb.log 2>&1
