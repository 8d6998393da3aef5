#!/bin/bash
# tools/coverage.sh RUNS [Cnn ...] : library lines no simulated run executes (baselines in forked children not counted)
here=$(cd "$(dirname "$0")/.." && pwd); n=$1; shift; ps=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C21 C22}
d=$(mktemp -d /tmp/cov.XXXX); mkdir $d/raw
for p in $ps; do VERIF_COV=$d/raw /opt/venv/bin/python $here/check.py $p --survey --runs $n --no-evidence >/dev/null 2>&1; cat $d/raw/* 2>/dev/null | sort -u > $d/$p; find $d/raw -type f -delete; done
cat $d/C?? | sort -u > $d/all
/opt/venv/bin/python $here/tools/coverage.py $d ${VERIF_REPO:-/repo}
rm -rf "$d"
