#!/bin/bash
# runs the repository's tests and compares with the stable list
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(o):
    if isinstance(o,dict):
        for k in ('passed','pass','stable'):
            if k in o: return set(o[k])
        return set(k for k,v in o.items() if v in ('pass','PASS','passed',True))
st=set(b['stable']); p=passed(o)
print('stable',len(st),'passed',len(p),'missing',sorted(st-p))
P
