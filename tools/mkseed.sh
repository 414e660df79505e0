#!/bin/bash
# usage: mkseed.sh ID PROPERTY "needs" "breaks" [files...]: takes the uncommitted change in /repo as the patch, demo text from stdin (python)
set -e
V=/verif; S=$V/seeded/$1; mkdir -p $S
git -C ${VP_REPO:-/repo} diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo "no change in /repo"; exit 1; }
git -C ${VP_REPO:-/repo} checkout -- .
cat > $S/demo.py
for f in vph.h chaos.h throwtrace.h sim.cpp ops.cpp; do cp $V/harness/$f $S/; done
for f in dump.py cs.py; do cp $V/vp/$f $S/; done
sed -e 's/^from \. import cs/import cs/' -e 's/^from \./from /' $V/vp/geo.py > $S/geo.py
cp $V/tools/kit/kit.py $S/
shift0=$1; P=$2; N=$3; B=$4; shift 4
for f in "$@"; do cp "$f" $S/; done
cat > $S/demo.sh <<'D'
#!/bin/bash
exec python3-vt "$(dirname "$(realpath "$0")")/demo.py"
D
chmod +x $S/demo.sh
python3 - "$S" "$P" "$N" "$B" <<'Y'
import json,sys
s,p,n,b=sys.argv[1:5]
open(s+'/meta.json','w').write(json.dumps({"property":p,"needs":n,"what_it_breaks":b},indent=1)+"\n")
Y
