#!/bin/bash
# sweep.sh "P01 P02 .." "seed .." [tier]: runs checks and prints only the verdict lines.
cd "$(dirname "$0")/.."
for p in $1; do for s in $2; do
  VERIF_TIER=${3:-quick} VERIF_SEED=$s timeout 900 python3 check.py $p > /tmp/sweep.$p.log 2>&1; rc=$?
  echo "$p seed $s rc=$rc $(grep -a '^property' /tmp/sweep.$p.log | sed 's/.*: //')"; grep -a "FAILED\|shrunk\|^VIOLATION\|INCONC\|^BUILD-ERROR\|^KNOWN" /tmp/sweep.$p.log | cut -c1-700
done; done
