#!/bin/bash
# usage: fixcommit.sh "message"
set -e
cd /repo
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: 
            v=x[k]; return set(v if isinstance(v,list) else [t for t,s in v.items() if s in('pass','passed',True)])
    raise SystemExit(list(x.keys()))
m=passed(b)-passed(o)
print(len(passed(b)),len(passed(o)),'missing',m)
if m: raise SystemExit(1)
P
git status --short
git commit -qam "$1"
git log --oneline | head -1
