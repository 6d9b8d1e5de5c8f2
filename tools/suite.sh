#!/bin/bash
# run the repository's tests and compare with the baseline list
timeout 880 bash /opt/vp/test.sh /tmp/vp_out.json >/tmp/vp_log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/vp_out.json'))
base=set(b.get('passed') or b.get('stable') or b)
print(len(base),'baseline;',len(d['passed']),'passed; missing:',sorted(base-set(d['passed']))[:10])
P
