#!/bin/bash
# mut.sh FILE 'python-old' 'python-new' "P01 P02": applies a one-line change to a scratch copy of /repo and runs checks against it.
F=/tmp/rc/include/dspbb/$1
[ -d /tmp/rc ] || cp -a /repo /tmp/rc
git -C /tmp/rc checkout -q -- . ; git -C /tmp/rc pull -q /repo HEAD 2>/dev/null
python3 - "$F" "$2" "$3" <<'P'
import sys
f,a,b=sys.argv[1:]; s=open(f).read()
n=s.count(a)
if n<1: print("NO MATCH",a); sys.exit(1)
if n>1: print("matches",n,"(all replaced)")
open(f,'w').write(s.replace(a,b))
P
[ $? = 0 ] || exit 1
cd "$(dirname "$0")/.."
for p in $4; do
  VERIF_REPO=/tmp/rc VERIF_SEED=${SEED:-1} timeout 900 python3 check.py $p > /tmp/mut.$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(grep -a '^property' /tmp/mut.$p.log | sed 's/.*: //')"; grep -a "FAILED\|shrunk\|BUILD-ERR" /tmp/mut.$p.log | cut -c1-400 | head -3
done
git -C /tmp/rc checkout -q -- .
