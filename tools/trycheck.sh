#!/bin/bash
# trycheck.sh id...: runs the check of its property on a copy of /repo with each planted change
for id in "$@"; do
  t=$(mktemp -d); git clone -q --no-hardlinks /repo $t/r; git -C $t/r apply /verif/seeded/$id/patch.diff
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); (cd /verif; QV_REPO=$t/r QV_BUILD=$t/b QV_EVIDENCE=$t VERIF_SEED=1 VERIF_TIER=quick timeout 1000 python3-vt check.py $p > $t/out 2>&1; echo "$id $p exit=$? $(( $(date +%s) - s ))s: $(grep -m1 -A0 VIOLATION $t/out)")
  rm -rf "$t"
done
