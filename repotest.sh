#!/bin/bash
# developer helper: rebuild /repo and run its stable tests, compare with the baseline
bash /opt/vp/build.sh >/tmp/vp_build.log 2>&1 || { tail -30 /tmp/vp_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp_out.json >/tmp/vp_test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/vp_out.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','passing','stable','tests'):
            if k in x: return set(x[k]) if isinstance(x[k],list) else {t for t,v in x[k].items() if v in (True,'pass','passed','ok')}
    return set(x)
print('baseline',len(names(b)),'passed now',len(names(o)),'missing',sorted(names(b)-names(o)))
P
