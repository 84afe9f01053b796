#!/bin/bash
# tools/seed.sh ID : confirm seeded/ID in a scratch copy (applies, builds, tests pass, demo 0 without and nonzero with)
. /opt/vp/env.sh
id=$1; S=/verif/seeded/$id; W=/tmp/seedwt
if [ -d $W ]; then git -C $W checkout -q -- . && git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD; else git clone -q /repo $W; fi
cp -an /repo/. $W/ 2>/dev/null
cd $W || exit 2
D=$(mktemp -d); cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
bash $D/demo.sh >/tmp/seed.clean 2>&1; a=$?
git apply $S/patch.diff || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
bash $D/demo.sh >/tmp/seed.bad 2>&1; b=$?
sed 's#/repo#/tmp/seedwt#g' /opt/vp/test.sh > /tmp/seedtest.sh
t=ok; python3 - <<'P' || t=FAIL
import subprocess,json,sys
subprocess.run(['bash','/tmp/seedtest.sh','/tmp/seed.json'],capture_output=True)
r=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x:
                v=x[k]; return set(v) if not isinstance(v,dict) else set(k for k in v)
    return set(x)
bad=names(b)-names(r)
if bad: print('lost tests',list(bad)[:5]); sys.exit(1)
P
git checkout -q -- .
rm -r $D
echo "$id: demo clean=$a patched=$b tests=$t"
[ $a = 0 ] && [ $b != 0 ] && [ $t = ok ]
