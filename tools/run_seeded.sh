#!/bin/bash
# run_seeded.sh [ID...]: apply each planted change to /repo in turn, run its property's check, undo it.
cd /verif || exit 1
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
for d in ${@:-$(ls seeded)}; do
  [ -f "seeded/$d/patch.diff" ] || continue
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$d/patch.diff" || { echo "$d: does not apply"; continue; }
  s=$(date +%s.%N)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh ${CHECK:-$p} 2>&1); rc=$?
  git -C /repo checkout -q -- .
  t=$(python3 -c "import time;print('%.1f'%(time.time()-$s))")
  if [ $rc = 1 ] && grep -q "^VIOLATION property=${CHECK:-$p} " <<<"$out"; then echo "caught  $d ($p, ${t}s)"; else echo "MISSED  $d ($p, rc=$rc, ${t}s): $(tail -1 <<<"$out")"; fi
done
