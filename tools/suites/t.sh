#!/bin/bash
bash /opt/vp/build.sh || exit 1
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open('/tmp/out.json'))
k=list(o.keys())
p=set(o.get('passed') or o.get('pass') or [])
print(k, len(p), 'missing', sorted(b-p)[:10], len(b-p))
P
