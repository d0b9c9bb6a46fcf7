#!/bin/bash
# usage: plant.sh ID   (development helper) confirms a planted bug: applies, builds, passes the stable tests,
# demo passes without and fails with it; then runs the property's check against it.
id="$1"; d=/verif/seeded/$id
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp -a $d /tmp/demo_$id; trap "rm -rf /tmp/demo_$id; git -C /repo checkout -- ." EXIT
(cd /repo && bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/clean.log 2>&1); a=$?
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/demo_$id/build.log 2>&1 || { echo "$id: build failed"; tail -5 /tmp/demo_$id/build.log; exit 2; }
(cd /repo && timeout 300 bash /tmp/demo_$id/demo.sh >/tmp/demo_$id/bad.log 2>&1); b=$?
t=skipped
if [ -z "$NOTEST" ]; then
 bash /opt/vp/test.sh /tmp/demo_$id/t.json >/dev/null 2>&1
 t=$(python3 - <<P
import json
b=set(map(str,json.load(open('/opt/vp/BASELINE.json'))['stable'])); o=set(map(str,json.load(open('/tmp/demo_$id/t.json'))['passed']))
print(len(b-o), list(b-o)[:3])
P
)
fi
echo "$id: demo clean=$a bad=$b ; stable tests failing: $t"
tail -2 /tmp/demo_$id/bad.log
[ -n "$NOCHECK" ] || for p in $prop $ALSO; do bash /verif/run.sh $p quick > /tmp/plant_$id.$p.log 2>&1; echo "$id: check $p exit $? $(grep -m1 -A1 VIOLATION /tmp/plant_$id.$p.log | tail -1 | cut -c1-200)"; done
