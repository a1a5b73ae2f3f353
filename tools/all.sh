#!/bin/bash
# run every claimed quick check; print result lines
cd /verif
for p in $(python3 -c "import json;print(*sorted(c['property'] for c in json.load(open('MANIFEST.json'))['checks'])) " 2>/dev/null || python3 -c "import json;print(*sorted(json.load(open('harness/conf.json'))))"); do
  python3 check.py $p ${1:-quick} > /tmp/all.$p.log 2>&1; rc=$?
  echo "rc=$rc $(tail -1 /tmp/all.$p.log)"
done
