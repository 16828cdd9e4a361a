#!/bin/bash
# tools/mut.sh 'CHECKS' file old new : applies a textual change to /repo, runs the checks, reverts
cd /repo || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
python3 - "$2" "$3" "$4" <<'P' || exit 1
import sys
f,o,n=sys.argv[1:4]
s=open(f).read()
assert o in s, 'pattern not found'
open(f,'w').write(s.replace(o,n,1))
P
for c in $1; do timeout 400 python3-vt /verif/checks/run.py $c quick 2>&1 | grep -v "^INCONCLUSIVE" | cut -c1-200 | tail -${5:-3}; done
