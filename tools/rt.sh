#!/bin/bash
# build + stable tests of /repo, compared with the baseline
bash /opt/vp/build.sh >/verif/.work/build.log 2>&1 || { cat /verif/.work/build.log; exit 1; }
VP_ALL=$1 bash /opt/vp/test.sh /verif/.work/test.json >/verif/.work/test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/verif/.work/test.json'))
bp=b.get('passed') or b.get('stable') or b
tp=set(t.get('passed') or [])
bp=set(bp if isinstance(bp,list) else bp.keys())
print('passed',len(tp),'missing from baseline:',sorted(bp-tp)[:10])
PY
