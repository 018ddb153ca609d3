#!/bin/bash
# Runs every registered check against ROOT (default /repo), without touching the evidence; prints one line per check.
cd "$(dirname "$0")/.."
ROOT=${1:-/repo}; shift
IDS=${*:-$(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for p in $IDS; do
  t=$(date +%s); out=$(timeout 900 ./check $p --root "$ROOT" --no-evidence 2>&1); rc=$?
  echo "$p rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep obligations)"
  [ $rc -ne 0 ] && echo "$out" | grep -E "refuted:" | cut -c1-300 | head -3
done
