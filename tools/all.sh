#!/bin/sh
# all.sh [SEED...]: all checks, with each seed; what is not quiet is kept as /tmp/fail.ID.SEED.
cd "$(dirname "$0")/.."
ids=$(python3 -c "import json;print(*[json.loads(l)['id'] for l in open('properties.jsonl')])")
for s in "${@:-1}"; do
  for p in $ids; do
    VERIF_SEED=$s ./check.sh "$p" > /tmp/run.out 2>&1 && continue
    cp /tmp/run.out "/tmp/fail.$p.$s"; echo "$p seed $s:"; tail -3 /tmp/run.out | cut -c1-800
  done
done
echo done
