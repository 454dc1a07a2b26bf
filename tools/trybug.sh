#!/bin/bash
# usage: trybug.sh <seeded id> [more property ids]: confirm a planted bug and run its check (applies to /repo, always undone)
D=/verif/seeded/$1; shift
W=$(mktemp -d); trap 'git -C /repo checkout -q -- . ; rm -rf "$W"' EXIT
git -C /repo diff --quiet || { echo "repo dirty"; exit 1; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
git apply "$D/patch.diff" || { echo "NOAPPLY"; exit 1; }
bash /opt/vp/build.sh > "$W/b" 2>&1 || { tail -5 "$W/b"; echo "NOBUILD"; exit 1; }
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/test.sh "$W/t.json" > /dev/null 2>&1
python3 - "$W/t.json" <<'X'
import json,sys
m=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(json.load(open(sys.argv[1]))['passed'])
print("tests:", "ok" if not m else "BROKEN %s" % sorted(m)[:6])
X
fi
timeout 300 bash "$D/demo.sh" > "$W/d" 2>&1; echo "demo with bug: exit $? ($(tail -1 "$W/d" | head -c 150))"
(cd /verif; for p in $P "$@"; do python3 check.py $p > "$W/c" 2>&1; echo "check $p: exit $?"; grep -E "violation|BROKEN" "$W/c" | head -${LINES_MAX:-4}; done)
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > "$W/b" 2>&1
timeout 300 bash "$D/demo.sh" > "$W/d" 2>&1; echo "demo without bug: exit $? ($(tail -1 "$W/d" | head -c 150))"
