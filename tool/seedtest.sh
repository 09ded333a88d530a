#!/bin/bash
# Development helper: validates a planted change in /repo itself (which is restored
# afterwards): demo on the clean tree, patch, rebuild, stable tests, demo, own checks.
#   tool/seedtest.sh ID [check ...]
# Without a rebuild (NOBUILD=1) only the checks are run against the patched sources.
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
d=$V/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
restore() { git -C /repo checkout -q -- .; }
trap restore EXIT
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$NOBUILD" ]; then
  bash $d/demo.sh >/tmp/seed_$id.0 2>&1; a=$?
  git apply $d/patch.diff || exit 2
  bash /opt/vp/build.sh >/tmp/seed_$id.b 2>&1 || { echo "$id BUILD FAILS"; bf=1; }
  t=$(bash /opt/vp/test.sh /tmp/seed_$id.json 2>&1 | tail -1)
  bash $d/demo.sh >/tmp/seed_$id.1 2>&1; b=$?
  echo "$id demo clean=$a patched=$b tests: $t"
else
  git apply $d/patch.diff || exit 2
fi
for c in ${@:-$p}; do
  (cd $V && python3 check.py $c) >/tmp/seed_$id.$c.log 2>&1; r=$?
  echo "$id check $c rc=$r $(grep -A0 -m1 'VIOLATION\|BROKEN' /tmp/seed_$id.$c.log | cut -c1-200)"
  grep -v '^VIOL\|obligations' /tmp/seed_$id.$c.log | head -2 | cut -c1-260
done
restore
if [ -z "$NOBUILD" ] && [ -z "$KEEPBUILD" ]; then bash /opt/vp/build.sh >/dev/null 2>&1; fi
