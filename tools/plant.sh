#!/bin/bash
# tools/plant.sh ID: validates seeded/ID in a scratch copy bind-mounted over /repo (private mount namespace) and runs the check
id=$1; S=/verif/seeded/$id; C=/tmp/plant_$id
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash -c "cd /repo && bash $S/demo.sh" >/tmp/plant_$id.clean 2>&1; c=$?
cp -a /repo $C; (cd $C && git apply $S/patch.diff) || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$C"; exit 1; }
cp -a $S /tmp/plantdemo_$id; rm -f /tmp/plantdemo_$id/*.diff /tmp/plantdemo_$id/meta.json
unshare -m bash -c "mount --bind $C /repo
 bash /opt/vp/build.sh >/tmp/plant_$id.build 2>&1; echo build \$?
 cd /repo; bash /tmp/plantdemo_$id/demo.sh >/tmp/plant_$id.demo 2>&1; echo demo \$?
 if [ -z '$NOSUITE' ]; then timeout 880 bash /opt/vp/test.sh /tmp/plant_$id.json >/tmp/plant_$id.test 2>&1; fi
 cd /verif; VERIF_SEED=1 VERIF_TIER=quick VERIF_EVID=/tmp/plant_ev_$id timeout 900 /opt/venv/bin/python check.py $prop --tier quick > /tmp/plant_$id.check 2>&1; echo check \$?" > /tmp/plant_$id.out 2>&1
t="suite skipped"
[ -z "$NOSUITE" ] && t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/plant_$id.json'))
base=set(b.get('passed') or b.get('stable') or b); m=sorted(base-set(d['passed'])); print('suite ok' if not m else 'SUITE FAILS %s'%m[:4])
P
)
echo "$id ($prop): clean demo $c; $(tr '\n' ' ' </tmp/plant_$id.out); $t; $(grep -h VIOLATION /tmp/plant_$id.check || tail -1 /tmp/plant_$id.check)"
rm -rf "$C" "/tmp/plantdemo_$id" "/tmp/plant_ev_$id"
