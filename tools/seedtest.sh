#!/bin/bash
# seedtest.sh ID... : demo on the unchanged tree, then patch, build, demo, tests, check, undo
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d); cp $d/* $t/
cd /repo
git diff --quiet || { echo dirty; exit 1; }
timeout 300 bash $t/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch fails"; continue; }
bash /opt/vp/build.sh > /tmp/build.log 2>&1; b=$?
timeout 300 bash $t/demo.sh >/tmp/demo1.log 2>&1; c=$?
T=skip
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
T=$(python3 - <<'P'
import json
o=json.load(open('/tmp/out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def S(x,k):
    v=x.get(k,[]); return set(v if isinstance(v,list) else v.keys())
st=None
for k in ('stable_pass','stable','passed','tests'):
    if k in b: st=set(b[k]) ; break
ps=None
for k in ('passed','pass','passing'):
    if k in o: ps=set(o[k]); break
if st is None or ps is None: print('keys',list(b)[:6],list(o)[:6])
else: print('missing',len(st-ps),sorted(st-ps)[:2])
P
); fi
cd /verif; EVDIR=/tmp/sev node run.js $prop > /tmp/chk.log 2>&1; k=$?
git -C /repo checkout -- .
echo "$id [$prop] demo0=$a build=$b demo1=$c ($(tail -1 /tmp/demo1.log | cut -c1-100)) tests: $T check=$k $(head -1 /tmp/chk.log | cut -c1-200)"
rm -r "$t"
done
cd /repo; [ -z "$NOBUILD" ] && bash /opt/vp/build.sh >/dev/null 2>&1
