#!/bin/bash
# seedtest.sh ID [-n] : verify /verif/seeded/ID against /repo (build, tests, demo, check); -n: check only
ID=$1; S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
cp -n /verif/tools/demo/* "$S/" 2>/dev/null
X=$(mktemp -d /tmp/seedtest.XXXXXX); cp "$S"/* "$X"; rm -f "$X"/*.diff "$X"/meta.json
undo() { git -C /repo checkout -q -- .; }
trap 'undo; rm -rf "$X"' EXIT
git apply --check "$S/patch.diff" || { echo "$ID: does not apply"; exit 1; }
if [ "$2" != -n ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1
timeout 300 bash "$X/demo.sh" >"/tmp/d.log" 2>&1; r0=$?
git apply "$S/patch.diff"
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$ID: BUILD FAILED"
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<E2
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
r=json.load(open('/tmp/t.json'))
s=json.dumps(r)
p=r.get('passed') or r.get('pass') or []
print('$ID tests:', 'ok' if set(b)<=set(p) else ('MISSING', [x for x in b if x not in p][:3], list(r)[:4]))
E2
bash /opt/vp/build.sh >/tmp/b.log 2>&1
timeout 300 bash "$X/demo.sh" >"/tmp/d1.log" 2>&1; r1=$?
echo "$ID demo: clean=$r0 patched=$r1"
else git apply "$S/patch.diff"; fi
for p in $P $3; do
(cd /verif; timeout 900 python3 check.py $p >/tmp/c.log 2>&1; echo "$ID check $p: exit=$? $(grep -h VIOLATION /tmp/c.log | head -1)"; grep -v '^evidence' /tmp/c.log | cut -c1-230 | head -${LINES_:-3})
done
undo
[ "$2" != -n ] && bash /opt/vp/build.sh >/tmp/b.log 2>&1
exit 0
