#!/bin/bash
# run the repository's stable tests on /repo (or $VERIF_REPO) and compare with the baseline
bash /opt/vp/test.sh /tmp/repotests.json >/tmp/repotests.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/repotests.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x: return set(x[k])
    return set(x)
bs=names(b); rs=names(r)
print('baseline',len(bs),'passing now',len(rs),'missing',sorted(bs-rs)[:10])
P
