#!/bin/bash
# Development helper: run every seeded change against its property's check; results in tools/planted.txt
O=$(mktemp -d); cd "$(dirname "$0")/.."
ls seeded | xargs -P4 -I{} sh -c "python3 tools/plant.py {} > $O/{} 2>&1"
: > tools/planted.txt
for i in $(ls seeded); do
  v=$(grep -E "^C[0-9]+ (CAUGHT|MISSED)" $O/$i | cut -d' ' -f1,2); grep -q "1 failed, 147 passed" $O/$i || v="$v INVALID"
  echo "$i $v" >> tools/planted.txt
done
rm -r "$O"
grep -v CAUGHT tools/planted.txt; grep INVALID tools/planted.txt; wc -l tools/planted.txt
