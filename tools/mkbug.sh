#!/bin/bash
# usage: mkbug.sh <id> <property> <needs> <what it breaks>   (demo.sh on stdin; the current diff of /repo becomes the patch)
D=/verif/seeded/$1; mkdir -p "$D"
git -C /repo diff > "$D/patch.diff"; [ -s "$D/patch.diff" ] || { echo "no diff"; exit 1; }
git -C /repo checkout -q -- .
cat > "$D/demo.sh"
python3 - "$D/meta.json" "$2" "$3" "$4" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
X
exec "$(dirname "$0")/trybug.sh" "$1"
