#!/bin/bash
# tools/bug.sh ID [N]: confirms a planted bug in scratch copy N of /repo (bound over /repo in a mount namespace).
ID=$1; N=${2:-1}; D=/verif/seeded/$ID; W=/tmp/wt$N
PID=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ ! -d $W/.git ]; then mkdir -p $W; cp -a /repo/. $W/; fi
git -C $W checkout -q -- . ; git -C $W fetch -q /repo HEAD && git -C $W reset -q --hard FETCH_HEAD
unshare -Urm bash -c "
mount --bind $W /repo; cd /repo
git checkout -q -- . 
mkdir -p /tmp/bugd$N; rm -rf /tmp/bugd$N/*; cp -r $D/* /tmp/bugd$N/; rm -f /tmp/bugd$N/*.diff /tmp/bugd$N/meta.json
bash /opt/vp/build.sh >/tmp/bug$N.b0 2>&1 || { echo base build FAILED; exit 1; }
timeout 300 bash /tmp/bugd$N/demo.sh >/tmp/bug$N.d0 2>&1; echo clean demo rc=\$?
git apply --check $D/patch.diff && git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/bug$N.b1 2>&1 || { echo mutant build FAILED; tail -5 /tmp/bug$N.b1; git checkout -q -- .; exit 1; }
timeout 300 bash /tmp/bugd$N/demo.sh >/tmp/bug$N.d1 2>&1; echo mutant demo rc=\$?; tail -2 /tmp/bug$N.d1
bash /opt/vp/test.sh /tmp/bug$N.json >/tmp/bug$N.t 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/bug$N.json'))['passed'])
print('tests missing', sorted(b-o)[:5])
P
mkdir -p /tmp/bugv$N; (cd /verif && cp -r check.py checks engine extract setup.sh known_findings.json MANIFEST.json /tmp/bugv$N/ && cp -r build /tmp/bugv$N/ 2>/dev/null)
for p in ${3:-$PID}; do (cd /tmp/bugv$N && python3 check.py \$p | grep -v KNOWN | cut -c1-250 | tail -4); done
git checkout -q -- .
"
