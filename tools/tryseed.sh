#!/bin/bash
# tryseed.sh ID...: apply each seeded change to /repo, build, test, demo, check; undo.
cd /repo
for id in "$@"; do
  S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  echo "== $id ($P)"
  [ -z "$(git status --porcelain)" ] || { echo "dirty repo"; exit 1; }
  if [ -z "$NODEMO" ]; then ( timeout 300 bash $S/demo.sh > /tmp/w/demo0.log 2>&1; echo "demo clean: $?" ); fi
  git apply $S/patch.diff || { echo "DOES NOT APPLY"; continue; }
  if [ -z "$NOTEST" ]; then bash /tmp/w/bt.sh 2>&1 | head -3; fi
  if [ -z "$NODEMO" ]; then ( timeout 300 bash $S/demo.sh > /tmp/w/demo1.log 2>&1; echo "demo patched: $?" ); fi
  if [ -z "$NOCHECK" ]; then ( cd /verif; s=$(date +%s); ./check.py $P quick > /tmp/w/check_$id.log 2>&1; echo "check: $? ($(( $(date +%s) - s )) s) $(grep -c ^VIOLATION /tmp/w/check_$id.log) violation(s)"; grep "violation in" /tmp/w/check_$id.log | head -2 | cut -c1-260; grep "^ERROR" -A5 /tmp/w/check_$id.log | head -6 ); fi
  git checkout -q -- .
done
