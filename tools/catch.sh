#!/bin/bash
# catch.sh <seed> [property...]: apply a seeded bug to /repo, run checks, undo it.
s=$1; shift
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])"))
git -C /repo apply /verif/seeded/$s/patch.diff || exit 2
for p in "${props[@]}"; do
  t=$(date +%s)
  out=$(cd /verif && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick bash run.sh $p 2>/dev/null); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATION' ) $(( $(date +%s)-t ))s"
done
git -C /repo checkout -- .
