#!/bin/bash
# Rebuilds /repo (or $1) and runs its tests, printing stable tests that do not pass.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -40 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('stable',len(b['stable']),'missing',miss,'failed',o['failed'])
P
