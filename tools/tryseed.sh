#!/bin/bash
# tryseed.sh ID... : run the check of each seeded change's property with the change applied
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap "git -C /repo checkout -q -- ." EXIT
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || continue
  (cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check $P --no-evidence > /tmp/try.$i 2>&1; echo "$i $P exit=$? $(grep -m1 ^VIOLATION /tmp/try.$i)")
  git -C /repo checkout -q -- .
done
