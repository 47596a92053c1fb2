#!/bin/bash
# dev aid: seed.sh ID — with an uncommitted change in /repo: saves it as seeded/ID/patch.diff,
# verifies build, tests, demo and the property's check, then reverts it.
id=$1; d=/verif/seeded/$id; mkdir -p $d
if ! git -C /repo diff --quiet; then git -C /repo diff > $d/patch.diff; else git -C /repo apply $d/patch.diff || exit 1; fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
echo "--- $id ($prop)"; grep '^[+-]' $d/patch.diff | head -20
bash /tmp/t.sh
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); echo "demo with patch: $? (want nonzero)"
r=$(cd /verif && ./run.sh $prop quick 2>&1); echo "check exit $?"; echo "$r" | grep -E "VIOLATION|ERROR|quiet|cases" | head -3
if [ -n "$2" ]; then for p in $2; do (cd /verif && ./run.sh $p quick 2>&1 | grep -E "VIOLATION" | head -1); done; fi
git -C /repo checkout -- . 
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash $d/demo.sh >/tmp/demo2.out 2>&1); echo "demo without patch: $? (want 0)"
