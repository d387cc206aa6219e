#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy of /repo (bind-mounted over /repo in a private
# namespace): the demo passes without it, it builds, the stable tests pass, the demo fails, and says whether the check catches it.
ID=$1; W=/tmp/ifem; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir -p $W
rsync -a --delete /repo/ $W/ 2>/dev/null || { find $W -mindepth 1 -delete; cp -a /repo/. $W/; }
cat > /tmp/seed-inner.sh <<X
mount --bind $W /repo || exit 9
cd /repo
L=/tmp/seed-$ID.log; : > \$L
bash /opt/vp/build.sh >>\$L 2>&1 || { echo "$ID: base build fails"; exit 1; }
T=\$(mktemp -d); cp $S/* \$T/ 2>/dev/null; find \$T -name '*.diff' -delete; find \$T -name meta.json -delete
( cd /repo; bash \$T/demo.sh >>\$L 2>&1 ) || { echo "$ID: BAD demo fails on the unchanged tree"; tail -5 \$L; exit 1; }
git apply --check $S/patch.diff || { echo "$ID: BAD patch"; exit 1; }
git apply $S/patch.diff
bash /opt/vp/build.sh >>\$L 2>&1 || { echo "$ID: BAD does not build"; tail -20 \$L; exit 1; }
bash /opt/vp/test.sh /tmp/seed-$ID.json >>\$L 2>&1
python3 - <<Y || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed-$ID.json'))
st=set(b if isinstance(b,list) else b.get('stable',b.get('passed',b.get('tests',[]))))
m=st-set(o['passed'])
print('$ID: tests', len(o['passed']),'passed;', ('BAD lost '+str(sorted(m)[:4])) if m else 'stable ones all pass')
import sys; sys.exit(1 if m else 0)
Y
( cd /repo; timeout 300 bash \$T/demo.sh >>\$L 2>&1 ) && { echo "$ID: BAD demo passes with the bug"; exit 1; }
echo "$ID: demo fails with the bug (good)"
find \$T -delete
[ "$2" = nocheck ] && exit 0
cd /verif; VERIF_SEED=1 python3 tools/run.py $P > /tmp/seed-$ID.out 2>&1; rc=\$?
if [ \$rc = 1 ] && grep -q "^VIOLATION property=$P" /tmp/seed-$ID.out; then echo "$ID: CAUGHT by $P: \$(grep -m1 'violation class' /tmp/seed-$ID.out | cut -c1-200)"; else echo "$ID: MISSED by $P (exit \$rc)"; tail -3 /tmp/seed-$ID.out; fi
X
unshare -Urm bash /tmp/seed-inner.sh
