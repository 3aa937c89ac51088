#!/bin/bash
# build /repo and run its stable tests; prints anything from the baseline that no longer passes
bash /opt/vp/build.sh >/tmp/repotest.build.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/repotest.build.log; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json | tail -1
python3 - <<'P'
import json
o=json.load(open('/tmp/repotest.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(o['passed'])
print("missing:",sorted(miss)); raise SystemExit(bool(miss))
P
