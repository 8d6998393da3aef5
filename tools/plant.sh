#!/bin/bash
# tools/plant.sh ID : confirm a planted bug of seeded/ID in a scratch copy of /repo:
# patch applies, stable tests pass with it, demo.sh passes without and fails with it.
# CHECKS="C01 C05" also runs those checks against the patched scratch copy.
id=$1; here=$(cd "$(dirname "$0")/.." && pwd); d=$here/seeded/$id; w=/tmp/xp_$id
rm -rf "$w"; mkdir -p "$w"; git -C /repo archive HEAD | tar x -C "$w"; cp -a /repo/nidn.egg-info "$w"/ 2>/dev/null
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TORCH_DEVICE=cpu OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 MPLCONFIGDIR=/opt/venv/var/matplotlib
cd "$w"
if [ -z "$SKIPDEMO" ]; then
PYTHONPATH=$w timeout 300 bash "$d/demo.sh" >/tmp/pl_$id.demo0 2>&1; echo "$id demo clean: $?"
fi
git -C /tmp apply --directory="${w#/tmp/}" "$d/patch.diff" 2>/dev/null || patch -s -p1 <"$d/patch.diff" || { echo "$id PATCH FAILS"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
PYTHONPATH=$w timeout 300 bash "$d/demo.sh" >/tmp/pl_$id.demo1 2>&1; echo "$id demo patched: $?"; tail -2 /tmp/pl_$id.demo1
fi
if [ -z "$SKIPTESTS" ]; then
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=600 >/tmp/pl_$id.tests 2>&1; echo "$id tests: $(tail -1 /tmp/pl_$id.tests)"
fi
for c in $CHECKS; do
 VERIF_REPO=$w /opt/venv/bin/python $here/check.py $c --no-evidence >/tmp/pl_$id.$c 2>&1; echo "$id $c rc=$? $(grep -E 'VIOLATION|violation' /tmp/pl_$id.$c | head -2 | cut -c1-200)"
done
[ -z "$KEEP" ] && rm -rf "$w"
exit 0
