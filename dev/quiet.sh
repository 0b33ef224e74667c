#!/bin/bash
# every check on the unchanged tree, as registered
cd "$(dirname "$0")/.."
for p in $(python3 -c "
import json
print(*[c['property_id'] if 'property_id' in c else c.get('property', c.get('id')) for c in json.load(open('MANIFEST.json'))['checks']])"); do
  python3 -m sa.run "$p" ${SRC:+--root $SRC} > /tmp/quiet.txt 2>&1 || { echo "$p exits $?"; tail -3 /tmp/quiet.txt; }
done
