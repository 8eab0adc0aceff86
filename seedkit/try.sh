#!/bin/bash
# try.sh <seed id> [check ...]: tests, demo and checks with the planted change; undone afterwards.
id=$1; shift
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
checks="$*"; [ -n "$checks" ] || checks=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ -z "$NODEMO" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo unchanged: $?"; tail -3 /tmp/demo.out); fi
git -C /repo apply $d/patch.diff || exit 1
if [ -z "$NOTEST" ]; then bash /tmp/rt.sh 2>&1 | tail -2; fi
if [ -z "$NODEMO" ]; then (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -4 /tmp/demo.out); fi
for c in $checks; do VERIF_SEED=1 bash /verif/run.sh $c quick > /tmp/c.out 2>&1; echo "check $c: $?"; grep -m3 VIOLATION /tmp/c.out; done
git -C /repo checkout -- .
