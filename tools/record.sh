#!/bin/bash
# record the approximations every check makes on the current tree (reviewed by hand before committing)
cd "$(dirname "$0")/.."
out=$(mktemp)
for id in ${@:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}; do
  for tier in quick thorough; do WB_RECORD=$out ./check $id $tier > /dev/null 2>&1; done
done
if [ $# -gt 0 ]; then cat lib/approximations.txt >> $out; fi
LC_ALL=C sort -u $out > lib/approximations.txt; rm -f "$out"; wc -l lib/approximations.txt
