#!/bin/bash
# Runs the stable tests on /repo's working tree and prints the baseline tests that do not pass.
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def ps(x):
    if 'passed' in x: x=x['passed']
    if isinstance(x,dict): return {k for k,v in x.items() if v in(True,'pass','passed','ok')}
    return set(x)
bp=ps(b.get('stable',b)) if isinstance(b,dict) else set(b); op=ps(o)
print(len(bp),len(op),'missing:',sorted(bp-op)[:20])
P
