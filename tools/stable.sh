#!/bin/sh
# Build /repo, run its tests, and list the stable tests which no longer pass.
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/stable-out.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/stable-out.json'))
print({k:type(v).__name__ for k,v in b.items()}, {k:type(v).__name__ for k,v in o.items()})
s=set(b.get('stable') or b.get('passed') or b['tests'])
p=set(o.get('passed') or [])
print('missing', sorted(s-p)[:20], len(s), len(p))
P
