#!/bin/bash
# newbug.sh ID PROP "needs" "breaks": records the uncommitted change of /repo as seeded bug ID (demo.cc read from stdin)
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ]
[ -t 0 ] || cat > $d/demo.cc
cp /verif/bin/demo_build.sh $d/
cat > $d/demo.sh <<'S'
#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. "$here/demo_build.sh"
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
build_demo "$here/demo.cc" "$tmp/demo" || exit 2
LD_LIBRARY_PATH=/opt/hpp-venv/lib/python3.12/site-packages/cmeel.prefix/lib "$tmp/demo"
S
chmod +x $d/demo.sh
python3 - "$@" <<'P'
import json,sys
i,p,n,b=sys.argv[1:5]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
P
