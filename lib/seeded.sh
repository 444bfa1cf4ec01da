#!/bin/bash
# lib/seeded.sh ID...: confirm a planted change (demo, stable tests) and report whether the check of its property sees it.
# Applies the patch to /repo and undoes it straight afterwards; needs a clean /repo.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain --untracked-files=no)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=$PWD/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /repo && bash "$d/demo.sh" >/dev/null 2>&1); a=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  (cd /repo && bash "$d/demo.sh" >/tmp/seeded_demo.log 2>&1); c=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seeded_o.json >/dev/null 2>&1
    t=$(python3 -c "
import json
o=json.load(open('/tmp/seeded_o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('ok' if not m else 'BROKEN:%d %s'%(len(m),m[:3]))")
  fi
  r=$(./check.sh $prop --tier quick --seed 1 2>&1 | grep -c "^VIOLATION property=$prop")
  git -C /repo checkout -q -- .
  echo "$id $prop demo-clean=$a build=$b demo-patched=$c tests=$t violations=$r"
done
