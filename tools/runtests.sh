#!/bin/bash
# Runs the repository's own tests and reports stable tests that no longer pass.
bash /opt/vp/build.sh >/tmp/vp_build.log 2>&1 || { tail -5 /tmp/vp_build.log; exit 2; }
bash /opt/vp/test.sh /tmp/vp_test.json >/tmp/vp_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/vp_test.json'))
ok=set(r.get('passed') or r.get('pass') or [])
miss=[t for t in b if t not in ok]
print('keys',{k:len(v) for k,v in r.items()},'stable failing:',miss)
P
