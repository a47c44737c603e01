#!/bin/bash
# inside ns.sh: tryseed_inner.sh ID [PROP...] ; NOTEST=1 skips the test suite
id=$1; shift
S=/verif/seeded/$id
props=${*:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $S/meta.json)}
cd /repo
bash $S/demo.sh >/tmp/$$.o 2>&1; r=$?
[ $r = 0 ] || { echo "$id DEMO FAILS ON UNCHANGED ($r)"; tail -3 /tmp/$$.o; }
git apply $S/patch.diff || { echo "$id PATCH FAILS"; exit; }
bash /opt/vp/build.sh >/tmp/$$.o 2>&1 || { echo "$id BUILD FAILS"; tail -5 /tmp/$$.o; exit; }
bash $S/demo.sh >/tmp/$$.o 2>&1; r=$?
[ $r != 0 ] || echo "$id DEMO PASSES WITH PATCH"
if [ -z "$NOTEST" ]; then
 bash /opt/vp/test.sh /tmp/$$.json >/dev/null 2>&1
 python3 - $id /tmp/$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[2]))
st=b.get('passed') or b.get('stable') or b
st=set(st if isinstance(st,list) else st)
miss=sorted(st-set(t['passed']))
print(sys.argv[1],'tests', 'OK' if not miss else 'BROKEN %d: %s'%(len(miss),miss[:3]))
P
fi
for p in $props; do
 t0=$(date +%s)
 VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/run_check.sh $p quick -j ${J:-4} >/tmp/$$.o 2>&1; r=$?
 echo "$id $p exit=$r $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/$$.o)"
 [ $r = 1 ] || tail -3 /tmp/$$.o
done
rm -f /tmp/$$.o /tmp/$$.json
