#!/bin/bash
# trybug.sh <id> [PROPERTY...]: does the planted change count, and do the checks catch it?  (applies it to /repo and undoes it)
d=/verif/seeded/$1; shift
P=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/demo_clean.log 2>&1; echo "demo clean: $?"
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/dev/null 2>&1; echo "build: $?"
[ -n "$SKIPTESTS" ] || { bash /opt/vp/test.sh /tmp/bug.json >/dev/null 2>&1; python3 - <<'PY'
import json
base=json.load(open('/opt/vp/BASELINE.json')); base=set(base['stable'])
got=set(json.load(open('/tmp/bug.json'))['passed'])
print('stable tests lost:', sorted(base-got)[:5])
PY
}
bash $d/demo.sh >/tmp/demo_bug.log 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo_bug.log
cd /verif
for p in $P; do timeout 900 python3 check.py $p > /tmp/bug_$p.log 2>&1; echo "check $p: $?"; head -3 /tmp/bug_$p.log | cut -c1-250; done
