#!/bin/bash
# all the quick checks, with the given seeds (default 1): prints what is not quiet
cd "$(dirname "$0")/.."
for seed in "${@:-1}"; do
  for p in $(python3 -c "import json;print(*[c['property_id' if 'property_id' in c else 'property'] for c in json.load(open('MANIFEST.json'))['checks']])" 2>/dev/null || ls evidence | sed 's/.json//'); do
    out=$(VERIF_SEED=$seed timeout 880 python3 bin/check.py $p 2>&1); rc=$?
    echo "seed $seed $p rc=$rc $(echo "$out" | grep "^$p:" | sed 's/.*, //')"
    [ $rc = 0 ] || echo "$out" | tail -12 | cut -c1-250
  done
done
