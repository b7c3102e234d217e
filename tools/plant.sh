#!/bin/bash
# tools/plant.sh ID [check ids...] : takes /repo's uncommitted change as the bug of seeded/ID
# (demo.sh and meta.json already there), confirms it, runs the checks against it, undoes it.
id="$1"; shift; d=/verif/seeded/$id
cd /repo; [ -n "$(git diff)" ] && git diff > $d/patch.diff || git apply $d/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/plant-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/plant-t.json >/tmp/plant-t.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/plant-t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(b['stable'])-set(t['passed']); print('tests: stable missing', len(miss), sorted(miss)[:5])
P
( timeout 300 bash $d/demo.sh >/tmp/plant-demo.log 2>&1 ); echo "demo with patch: $? (want nonzero): $(tail -1 /tmp/plant-demo.log | cut -c1-160)"
for c in ${@:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  ( cd /verif && ./check.sh $c quick > /tmp/plant-check.log 2>&1 ); echo "check $c: exit $? $(grep -E -A1 ^VIOLATION /tmp/plant-check.log | tail -1 | cut -c1-200)"
done
git -C /repo checkout -q -- .; trap - EXIT
bash /opt/vp/build.sh >/tmp/plant-build.log 2>&1
( timeout 300 bash $d/demo.sh >/tmp/plant-demo.log 2>&1 ); echo "demo without: $? (want 0): $(tail -1 /tmp/plant-demo.log | cut -c1-160)"
