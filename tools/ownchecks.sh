#!/bin/bash
# tools/ownchecks.sh b01-... b02-... : own-property quick check on a patched scratch copy of /repo
here=$(cd "$(dirname "$0")/.." && pwd)
for b in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('$here/seeded/$b/meta.json'))['property'])")
 SKIPDEMO=1 SKIPTESTS=1 CHECKS=$p bash $here/tools/plant.sh $b
done
