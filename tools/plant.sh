#!/bin/bash
# usage: plant.sh ID...: confirms a planted bug (demo, stable tests) and runs its property's check against it. QUICKP=1: no demo/test
for id in "$@"; do
S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }
T=skip; DP=skip; D0=skip
if [ -z "$QUICKP" ]; then
 bash /opt/vp/test.sh /tmp/w/t_$id.json > /tmp/w/t_$id.log 2>&1
 T=$(python3 - /tmp/w/t_$id.json <<'Y'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
def S(x):
    for k in ('stable','passed','passing','pass','tests'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
want=set(S(b)); got=set(S(r))
m=want-got
print('tests %d/%d %s'%(len(want)-len(m),len(want),sorted(m)[:3]))
Y
)
 (cd /repo; timeout 300 bash $S/demo.sh > /tmp/w/d_$id.log 2>&1); DP=$?
fi
(cd /verif; timeout 900 ./check $P > /tmp/w/c_$id.log 2>&1); C=$?
V=$(grep -c "^VIOLATION property=$P" /tmp/w/c_$id.log)
git -C /repo checkout -- .
if [ -z "$QUICKP" ]; then
 bash /opt/vp/build.sh > /dev/null 2>&1
 (cd /repo; timeout 300 bash $S/demo.sh > /tmp/w/d0_$id.log 2>&1); D0=$?
fi
echo "$id $P: $T | demo patched=$DP clean=$D0 | check rc=$C violations=$V"
done
