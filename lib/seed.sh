#!/bin/bash
# seed.sh <id>...: confirm planted bugs (demo passes without, fails with; builds; stable tests pass) and say whether the check catches them
cd /repo || exit 2
git diff --quiet || { echo "/repo is not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "build of the unchanged tree failed"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/seed.demo; cp -a "$d" /tmp/seed.demo; rm -f /tmp/seed.demo/patch.diff /tmp/seed.demo/meta.json
  timeout 300 bash /tmp/seed.demo/demo.sh >/tmp/seed.out0 2>&1; r0=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  rt=$(python3 -c "import json;print(len(json.load(open('/tmp/seed.json'))['passed']))")
  timeout 300 bash /tmp/seed.demo/demo.sh >/tmp/seed.out1 2>&1; r1=$?
  if [ -z "$NOCHECK" ]; then
    s=$(date +%s); timeout 900 /verif/check "$prop" quick >/tmp/seed.check 2>&1; rc=$?; e=$(date +%s)
    v=$(grep -m1 VIOLATION /tmp/seed.check | cut -c1-200)
  fi
  git checkout -q -- .
  echo "$id: demo unchanged $r0, with the bug $r1; build $rb; tests passed $rt; check $prop exit $rc in $((e-s)) s $v"
done
rm -rf /tmp/seed.demo
