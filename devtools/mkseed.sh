#!/bin/bash
# devtools/mkseed.sh ID PROP "needs" "breaks": take /repo's diff as the patch
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff && git -C /repo checkout -q -- .
python3 - "$d" "$2" "$3" "$4" <<'P'
import sys, json
json.dump({"property": sys.argv[2], "needs": sys.argv[3], "what_it_breaks": sys.argv[4]}, open(sys.argv[1] + "/meta.json", "w"), indent=1)
P
wc -l $d/patch.diff
