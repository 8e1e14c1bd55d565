#!/bin/bash
# trybug.sh ID [quick|thorough]: confirm a planted bug (applies, builds, passes the stable tests, demo fails only with it) and run its check
D=/verif/seeded/$1; TIER=${2:-quick}
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/tb.$1.b0 2>&1 || { echo base build failed; exit 2; }
(cd /repo; bash $D/demo.sh >/tmp/tb.$1.d0 2>&1); echo "demo unchanged: $?"
git apply $D/patch.diff || exit 2
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/tb.$1.json >/tmp/tb.$1.t 2>&1
python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.$1.json'))
b=b['stable']
miss=[t for t in b if t not in r['passed']]
print('tests failing:',len(miss),miss[:5])
X
else bash /opt/vp/build.sh >/tmp/tb.$1.b1 2>&1 || echo "BUILD FAILED"; fi
(cd /repo; timeout 300 bash $D/demo.sh >/tmp/tb.$1.d1 2>&1); echo "demo patched: $?"
if [ -z "$NOCHECK" ]; then cd /verif; timeout 900 python3 check.py $P $TIER >/tmp/tb.$1.c 2>&1; echo "check $P: $?"; grep VIOLATION /tmp/tb.$1.c | head -3; fi
git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1
