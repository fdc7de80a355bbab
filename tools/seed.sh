#!/bin/bash
# tools/seed.sh <id>: confirm a planted bug: demo passes on HEAD, patch applies, builds, passes the stable tests, demo fails.
# Then (unless NOCHECK=1) runs the property's check against it. Leaves /repo clean.
id=$1; d=/verif/seeded/$id
P=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 9; }
bash /opt/vp/build.sh >/tmp/seed-b.log 2>&1 || { echo BUILD0; exit 9; }
timeout 300 bash $d/demo.sh >/tmp/seed-d0.log 2>&1; r0=$?
git apply $d/patch.diff || { echo NOAPPLY; exit 9; }
trap 'git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed-b.log 2>&1 || { echo "BUILD FAILED"; exit 9; }
bash /opt/vp/test.sh /tmp/seed-o.json >/tmp/seed-t.log 2>&1
python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/seed-o.json'))['passed'])
print("tests:", "ok" if b<=o else "BROKEN %s"%(b-o))
PY
timeout 300 bash $d/demo.sh >/tmp/seed-d1.log 2>&1; r1=$?
echo "$id ($P): demo HEAD=$r0 bug=$r1"
if [ -z "$NOCHECK" ]; then (cd /verif; timeout 900 python3 bin/check $P >/tmp/seed-c.log 2>&1; echo "check exit $?"; grep -m2 -A1 VIOLATION /tmp/seed-c.log | cut -c1-300); fi
