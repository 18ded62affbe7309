#!/bin/bash
# try_seed.sh <seed id>...: does each planted bug count, and is it caught?  (development aid)
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo; git checkout -q -- .
  s=/tmp/seed-demo; mkdir -p $s; cp $d/demo* $s/ 2>/dev/null
  bash $s/demo.sh >/tmp/demo0.log 2>&1; a=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $s/demo.sh >/tmp/demo1.log 2>&1; b=$?
  if git diff --name-only | grep -q '\.rs$\|\.pyx$'; then bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo build failed; fi
  bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/o.json'))['passed'])
print(len(b-p))")
  cd /verif; ./check $prop >/tmp/seed-check.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id prop=$prop demo-clean=$a demo-patched=$b tests-broken=$t check=$c $(grep -m1 VIOLATION /tmp/seed-check.log | cut -c1-150) $(tail -1 /tmp/seed-check.log | cut -c1-120)"
  rm -f /tmp/seed-demo/demo*
done
