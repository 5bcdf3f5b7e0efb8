#!/bin/bash
# Try one planted change in private copies of /repo and /verif (bind-mounted in
# a user namespace): build, stable tests, demo on both trees, then the check.
# usage: seedtest.sh ID [--nocheck] [--tier thorough]
ID=$1; shift
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/. $W/verif/ 2>/dev/null; rm -rf "$W/verif/out"
cp -a /opt/vp $W/vp
PROP=$(python3 -c "import json,sys;print(json.load(open('$D/meta.json'))['property'])")
cat > $W/run.sh <<IN
mount --bind $W/repo /repo; mount --bind $W/verif /verif; mount --bind $W/vp /opt/vp
cd /repo
cp -r /verif/seeded/$ID $W/demo
timeout 300 bash $W/demo/demo.sh > $W/d0 2>&1; echo "demo unchanged: \$?"
git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "APPLY FAILED"; exit 1; }
if [ "$1" != --notest ]; then
bash /opt/vp/test.sh $W/o.json > $W/t 2>&1 || tail -30 $W/t
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('$W/o.json'))['passed'])
print('stable missing:',len(b-o),sorted(b-o)[:5])
P
fi
timeout 300 bash $W/demo/demo.sh > $W/d1 2>&1; echo "demo patched: \$?"; tail -3 $W/d1
if [ "$1" != --nocheck ]; then
cd /verif; /usr/bin/time -f '%es' python3 check.py $PROP > $W/c 2>&1; echo "check $PROP rc=\$?"; grep -a VIOLATION $W/c | head -3; tail -2 $W/c
fi
IN
echo "== $ID ($PROP)"
unshare -Urm bash $W/run.sh
rm -rf "$W"
