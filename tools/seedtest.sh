#!/bin/bash
# seedtest.sh ID...: confirm planted bugs: demo passes clean, fails patched; stable tests pass patched; report checks that fire
cd /repo || exit 1
for id in "$@"; do
  s=/verif/seeded/$id
  [ -n "$(git status --porcelain)" ] && { echo dirty; exit 1; }
  if [ -z "$SKIPCLEAN" ]; then bash $s/demo.sh >/tmp/seed.clean 2>&1; rc0=$?; else rc0=skip; fi
  git apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/seed.test.json >/dev/null 2>&1
  t=$(python3 - <<'PY'
import json
r=json.load(open('/tmp/seed.test.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed', b if isinstance(b,list) else b.get('stable',[]))
print('ok' if set(base)<=set(r['passed']) else 'MISSING %s'%sorted(set(base)-set(r['passed'])))
PY
)
  bash $s/demo.sh >/tmp/seed.bad 2>&1; rc1=$?
  else b=skip; t=skip; rc1=skip; fi
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  c=""
  for q in ${CHECKS:-$p}; do
    python3-vt /verif/sa/check.py $q >/tmp/seed.check 2>&1; c="$c $q=$?"
  done
  git checkout -q -- .
  echo "$id: demo clean=$rc0 patched=$rc1 build=$b tests=$t checks:$c"
  [ -n "$V" ] && { tail -3 /tmp/seed.bad; grep violation /tmp/seed.check | cut -c1-300 | head -5; }
done
git status --porcelain
