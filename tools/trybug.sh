#!/bin/bash
# trybug.sh ID...: runs the check of each planted bug's property against a copy of /repo with the bug in it
cd /verif
T=/tmp/tb; export SIM_REPO=$T SIM_BUILD=/tmp/tbbuild SIM_EVIDENCE=/tmp/tbev
[ -d $T ] || git -C /repo worktree add -q --detach $T HEAD
git -C $T checkout -q -f --detach $(git -C /repo rev-parse HEAD); mkdir -p $SIM_EVIDENCE
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C $T checkout -q -- . ; git -C $T apply /verif/seeded/$b/patch.diff || { echo "$b: does not apply"; continue; }
  s=$(date +%s); timeout 880 python3 tools/check.py $p quick > /tmp/tb.out 2>&1; rc=$?
  if grep -q "^VIOLATION property=$p" /tmp/tb.out && [ $rc = 1 ]; then echo "$b: CAUGHT by $p in $(($(date +%s)-s)) s: $(grep -A1 ^VIOLATION /tmp/tb.out | tail -1 | cut -c1-150)"; else echo "$b: missed by $p (rc $rc): $(tail -1 /tmp/tb.out)"; fi
  git -C $T checkout -q -- .
done
