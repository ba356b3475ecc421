#!/bin/bash
# Runs every claimed check on the current tree: one line each.
here=$(cd "$(dirname "$0")/.." && pwd)
for p in $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['property_id'] for c in json.load(open('$here/MANIFEST.json'))['checks']])"); do
    t=$(date +%s)
    bash "$here/check.sh" "$p" "${1:-quick}" >/tmp/run_all.out 2>&1
    rc=$?
    echo "$p rc=$rc $(( $(date +%s) - t ))s $(grep -oE "slowest run [0-9]+ ms \(run [0-9]+\)" /tmp/run_all.out) $(grep -E "VIOLATION|KNOWN|stuck|truncated" /tmp/run_all.out | head -3)"
done
