#!/bin/bash
# devtools/seedtest.sh ID [nodemo]: apply the planted bug to /repo, build, run
# the stable tests, its demonstration and its property's check; then undo
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
(timeout 300 bash $d/demo.sh) >/tmp/seed.$id.clean 2>&1; echo "$id demo clean rc=$?"
git apply $d/patch.diff || { echo "APPLY FAILED"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1 || { echo "BUILD FAILED"; tail -20 /tmp/seed.$id.build; exit 1; }
if [ -z "$SKIPTESTS" ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.test 2>&1; tail -1 /tmp/seed.$id.test; fi
(timeout 300 bash $d/demo.sh) >/tmp/seed.$id.bug 2>&1; echo "$id demo bug rc=$?"; tail -3 /tmp/seed.$id.bug
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; python3 checks/run.py $p | tail -6; echo "check rc=${PIPESTATUS[0]}"
