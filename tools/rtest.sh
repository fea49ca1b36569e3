#!/bin/bash
# repository build and stable tests; prints what is missing from the baseline
bash /opt/vp/build.sh || { echo BUILD FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/rtest.json >/tmp/rtest.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rtest.json'))
def passed(x):
    for k in ('passed','stable','tests'):
        if k in x:
            v=x[k]
            return set(v if isinstance(v,list) else [t for t,s in v.items() if s in ('passed',True)])
    return set()
pb,pr=passed(b),passed(r)
print('baseline',len(pb),'passed',len(pr),'missing',sorted(pb-pr)[:10])
import sys; sys.exit(bool(pb-pr))
P
