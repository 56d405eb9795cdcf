#!/bin/bash
# trybug.sh <id> [properties...] (development only): runs checks against a planted bug in /repo and undoes it
id=$1; shift
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
git -C /repo apply /verif/seeded/$id/patch.diff || exit 1
for c in ${@:-$p}; do
  out=$(cd /verif && ./check $c quick 2>&1); rc=$?
  echo "$id $c rc=$rc $(echo "$out" | grep -E 'VIOLATION|TOOL-ERROR|held' | cut -c1-150)"
done
git -C /repo checkout -- .
