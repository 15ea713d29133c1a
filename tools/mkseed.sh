#!/bin/bash
# usage: mkseed.sh ID  -- /tmp/w (a copy of /repo) holds the change; /verif/seeded/ID holds demo.sh (+files) and meta.json
# Confirms build, stable tests, demo both ways; stores patch.diff; runs the property's check and all others.
. /opt/vp/env.sh
ID=$1; S=/verif/seeded/$ID; W=/tmp/w
cd $W || exit 1
[ -f $S/demo.sh ] || { echo no demo; exit 1; }
git diff > /tmp/$ID.diff
[ -s /tmp/$ID.diff ] || { echo "no change"; exit 1; }
go build ./... || { echo "BUILD FAILS"; exit 1; }
go vet ./... 2>&1 | grep -v '^#' | head -3 >/dev/null
rm -rf /tmp/seedrun; mkdir -p /tmp/seedrun; cp -a $S/. /tmp/seedrun/; rm -f /tmp/seedrun/patch.diff /tmp/seedrun/meta.json
cp $S/patch.diff /tmp/seedrun.old 2>/dev/null
go test -json ./... 2>/dev/null > /tmp/seed.json
python3 - <<'P' || { echo "STABLE TESTS FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
st=b if isinstance(b,list) else next(v for k,v in b.items() if isinstance(v,list) and v and ('stable' in k or 'pass' in k))
ok=set()
for l in open('/tmp/seed.json'):
    try: d=json.loads(l)
    except Exception: continue
    if d.get('Action')=='pass' and d.get('Test'): ok.add((d['Package'].replace('github.com/RenatoGeh/gospn/',''),d['Test']))
miss=[s for s in st if not any(t==s or s.endswith(t) for _,t in ok)]
print('stable',len(st),'missing',miss); sys.exit(1 if miss else 0)
P
# demo: paths are /repo in demo.sh's cwd; run it with cwd and REPO overridden through the cwd
(cd $W && timeout 300 bash /tmp/seedrun/demo.sh >/tmp/demo.bad 2>&1); BAD=$?
git stash -q; (cd $W && timeout 300 bash /tmp/seedrun/demo.sh >/tmp/demo.good 2>&1); GOOD=$?; git stash pop -q
echo "demo: changed=$BAD unchanged=$GOOD"
[ $BAD -ne 0 ] && [ $GOOD -eq 0 ] || { tail -5 /tmp/demo.bad /tmp/demo.good; exit 1; }
cp /tmp/$ID.diff $S/patch.diff
git -C /repo apply --check $S/patch.diff || exit 1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p /tmp/v; cp /verif/known_findings.json /tmp/v/
/verif/bin/gospncheck -repo $W -verif /tmp/v -prop all 2>&1 | grep -v '^OK\|^KNOWN' | cut -c1-330 > /tmp/$ID.out
grep -q "VIOLATION property=$P " /tmp/$ID.out && echo "CAUGHT by $P" || echo "*** MISSED by $P"
cat /tmp/$ID.out | head -12
git checkout -q -- .
