#!/bin/bash
# seedtest.sh [-c] ID...: validates planted changes (clean demo 0, patched: builds, stable tests pass, demo nonzero);
# with -c also runs the property's quick check on the patched tree. Always restores /repo.
c=0; [ "$1" = -c ] && { c=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo.log 2>&1); clean=$?
  [ $clean = 0 ] || tail -3 /tmp/seed_demo.log
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; b=$?
  [ $b = 0 ] || grep -m3 error /tmp/seed_build.log
  bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed_t.json'))
print([x for x in b['stable'] if x not in o['passed']])")
  (cd /repo && bash $d/demo.sh >/tmp/seed_demo.log 2>&1); pd=$?
  r="-"
  if [ $c = 1 ]; then s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 $V/check.py $p quick >/tmp/seed_check.log 2>&1; r="rc=$? $(grep -c "VIOLATION property=$p" /tmp/seed_check.log) $(( $(date +%s)-s ))s"; fi
  git -C /repo checkout -q -- .
  echo "$id [$p] clean=$clean build=$b missing=$t patched=$pd check: $r"
done
bash /opt/vp/build.sh >/dev/null 2>&1
