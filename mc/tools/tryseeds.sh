#!/bin/bash
# tryseeds.sh ID... : applies each planted change to /repo, runs the check of its property, undoes it
for s in "$@"; do
  P=/verif/seeded/$s; C=$(python3 -c "import json;print(json.load(open('$P/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "repo dirty"; exit 1; }
  git -C /repo apply $P/patch.diff || { echo "$s: does not apply"; continue; }
  t0=$SECONDS; (cd /verif && MC_EVIDENCE=/tmp/ev timeout 900 bin/py mc/checks/$C.py > /tmp/seedrun.$s 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $C exit=$rc $((SECONDS-t0))s $(grep -c ^VIOLATION /tmp/seedrun.$s) violations: $(grep -A1 ^VIOLATION /tmp/seedrun.$s | grep '\[' | head -2 | tr '\n' ' ')"
done
