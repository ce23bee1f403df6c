#!/bin/bash
# developer helper: build /repo and run its tests, print stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
miss=[x for x in b if x not in t['passed']]
print(len(b)-len(miss),'pass', 'missing:',miss)
P
