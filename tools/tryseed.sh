#!/bin/bash
# tryseed.sh <seed id> : demo on the clean tree and on the patched one, build and stable tests, then the property's check
root=$(cd "$(dirname "$0")/.." && pwd)
d=$root/seeded/$1
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
bash "$d/demo.sh" >/tmp/demo.out 2>&1; echo "$1 clean demo: $? (want 0)"
git apply "$d/patch.diff" || exit 2
bash /opt/vp/build.sh >/dev/null 2>&1; echo "  build: $?"
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1; python3 - <<P
import json
r=json.load(open('/tmp/seedtest.json')); print('  tests:', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
P
bash "$d/demo.sh" >/tmp/demo.out 2>&1; echo "  patched demo: $? (want nonzero): $(grep -m1 -A1 panicked /tmp/demo.out | tail -1)"
cd "$root"; ./check.sh "${2:-$prop}" quick 2>/dev/null | grep -E "observed|VIOLATION|states" ; echo "  check exit ${PIPESTATUS[0]}"
git -C /repo checkout -q -- .
