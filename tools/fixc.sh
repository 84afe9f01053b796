#!/bin/bash
# development helper: fixc.sh "message" : build, run the stable tests, commit /repo's working tree as a fix
. /opt/vp/env.sh
cd /repo || exit 1
gofmt -l *.go */ 2>/dev/null | grep -v _test | head
bash /opt/vp/build.sh >/tmp/fixc.build 2>&1 || { tail -20 /tmp/fixc.build; exit 1; }
bash /opt/vp/test.sh /tmp/fixc.json >/tmp/fixc.test 2>&1
python3 - <<'P' || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fixc.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests','pass'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in('pass','passed',True)}
    return set(x)
B,O=names(b),names(o)
m=B-O
print('baseline',len(B),'now',len(O),'missing',sorted(m)[:10])
raise SystemExit(1 if m or not B else 0)
P
[ -n "$1" ] || exit 0
git add -A . && git -c user.name=verif -c user.email=v@v commit -qm "$1" && git log --oneline | head -1
git status --short | head
