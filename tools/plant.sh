#!/bin/bash
# tools/plant.sh ID...: confirm planted bugs in a scratch copy mounted over /repo
# (private mount namespace): demo passes before, patch applies and builds, the
# stable tests pass, demo fails after; then run the property's check.
HERE=$(dirname "$(dirname "$(realpath "$0")")")
for id in "$@"; do
  d=$HERE/seeded/$id
  prop=$(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  W=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo "$W/repo"; mkdir "$W/rep" "$W/demo"; cp "$d"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
  unshare -m bash -c "
    mount --bind '$W/repo' /repo; mount --bind '$W/rep' /opt/vp/reports; cd /repo
    bash '$W/demo/demo.sh' >'$W/d0' 2>&1; echo demo-before \$?
    git apply '$d/patch.diff' || { echo NO-APPLY; exit; }
    bash /opt/vp/build.sh >/dev/null 2>&1; echo build \$?
    bash '$W/demo/demo.sh' >'$W/d1' 2>&1; echo demo-after \$?
    if [ -z '$NOTEST' ]; then bash /opt/vp/test.sh '$W/out.json' >/dev/null 2>&1
    /usr/bin/python3 -c \"import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('$W/out.json'))['passed'];print('tests-missing',[t for t in b if t not in o])\"; fi
    if [ -z '$NOCHECK' ]; then cd '$HERE'; timeout 900 ./check $prop >'$W/c' 2>&1; echo check \$?; grep -h VIOLATION '$W/c'; fi
  " > "$W/log" 2>&1
  echo "== $id ($prop): $(tr '\n' ' ' < "$W/log")"; tail -2 "$W/d0" "$W/d1" 2>/dev/null | head -${LINES_:-8}
  rm -rf "$W"
done
