#!/bin/bash
# runs the repository's stable tests on /repo (or a copy given as $1 is not supported) and prints what broke
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { tail -20 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt2.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/rt.json'))
miss=[x for x in b if x not in set(r['passed'])]
print("stable",len(b),"broken",len(miss),miss[:5])
P
