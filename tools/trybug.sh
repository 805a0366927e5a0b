#!/bin/bash
# trybug.sh ID... : applies each planted change to /repo, builds, tests, runs its demonstration and its property's check, and undoes it.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash $d/demo.sh >/tmp/demo0.log 2>&1; d0=$?
  git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
  n=$(python3 -c "import json;print(len(json.load(open('/tmp/t.json'))['passed']))")
  bash $d/demo.sh >/tmp/demo1.log 2>&1; d1=$?
  (cd /verif && VERIF_SEED=1 bash check.sh $prop quick) >/tmp/check.log 2>&1; c=$?
  git checkout -q -- . ; git clean -fdq
  echo "$id $prop: build $b, tests $n, demo $d0 -> $d1, check $c: $(grep -h 'violated\|VIOLATION' /tmp/check.log | cut -c1-160 | head -1)"
done
