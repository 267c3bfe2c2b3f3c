#!/bin/bash
# dev: rebuild + stable tests of /repo against the baseline
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -30 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
base=b.get('passed') or b.get('stable') or b
base=set(base if isinstance(base,list) else base.get('passed',[])); p=set(o['passed'])
print('baseline',len(base),'passed',len(p),'missing',sorted(base-p)[:10])
P
cd /repo && git status --short
