#!/bin/bash
# Determinism self-test: the same seeds, run twice with a different number of
# workers and another hash seed, must give the same digest of every run.
# usage: tools/selftest.sh [C01 C02 ...]   (RUNS=n runs each, default 40)
cd "$(dirname "$0")/.."
T=$(mktemp -d); bad=0
for p in ${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C21 C22}; do
  PYTHONHASHSEED=1 /opt/venv/bin/python check.py $p --runs ${RUNS:-40} --workers 8 --no-evidence --digests $T/a.json >/dev/null 2>&1
  PYTHONHASHSEED=77 /opt/venv/bin/python check.py $p --runs ${RUNS:-40} --workers 3 --no-evidence --digests $T/b.json >/dev/null 2>&1
  if cmp -s $T/a.json $T/b.json; then echo "$p deterministic ($(wc -c <$T/a.json) bytes of digests)"; else echo "$p DIFFERS"; bad=1; cp $T/a.json /tmp/st_$p.a.json; cp $T/b.json /tmp/st_$p.b.json; fi
  rm -f $T/a.json $T/b.json
done
rm -rf "$T"; exit $bad
