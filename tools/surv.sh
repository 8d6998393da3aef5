#!/bin/bash
# tools/surv.sh RUNS C01 C05 ... : survey (no stop at the first violation) of the given properties
n=$1; shift; here=$(cd "$(dirname "$0")/.." && pwd)
for c in "$@"; do echo "== $c"; /opt/venv/bin/python $here/check.py $c --survey --runs $n --no-evidence 2>&1 | tail -${TAIL:-6}; done
