#!/bin/bash
# bash tools/catch.sh [id...]: applies each planted bug, runs its property's check, restores /repo
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
for id in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || continue
    out=$(node bin/check.mjs $p 2>&1)
    git -C /repo checkout -q -- .
    echo "$id $p: $(echo "$out" | grep -E 'VIOLATION' || echo MISSED) | $(echo "$out" | grep -m1 'failed obligation' | cut -c1-150) | $(echo "$out" | grep -A1 -m1 'failing input' | cut -c1-200 | tr '\n' ' ')"
done
