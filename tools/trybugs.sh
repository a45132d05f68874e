#!/bin/bash
# trybugs.sh [id...]: applies each planted bug in turn, runs its property's quick check, undoes it
cd /verif
ids=${@:-$(ls seeded)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(python3 check.py ${PROP:-$p} 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=${PROP:-$p} " <<<"$out"; then echo "$id ${PROP:-$p}: caught ($((e-s))s)"; else echo "$id ${PROP:-$p}: MISSED rc=$rc ($((e-s))s)"; tail -3 <<<"$out"; fi
done
