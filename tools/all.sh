#!/bin/bash
# every claimed check, one after the other
cd /verif
for p in $(python3 -c "import json;print(*[c['property'] if 'property' in c else c['id'] for c in json.load(open('MANIFEST.json'))['checks']])"); do
  ./run.sh $p ${1:-quick} > /tmp/all-$p.log 2>&1; echo "$p rc=$? $(grep -a -c VIOLATION /tmp/all-$p.log) $(grep -a '^P.*wall' /tmp/all-$p.log | sed 's/.*states/states/' | cut -c1-120)"
done
