#!/bin/bash
# build, run the repository's tests, list stable tests that fail
bash /opt/vp/build.sh > /tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/test.json > /tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/test.json'))
bad=sorted(set(b['stable'])-set(t['passed']))
print(len(bad),"stable tests fail"); print("\n".join(bad[:20]))
P
