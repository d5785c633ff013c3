#!/bin/bash
# usage: mut.sh <check> <file under /repo> <python expression s -> s>   (development aid)
cd /repo && git diff --quiet || exit 9
python3 - "$2" "$3" <<'P'
import sys
p='/repo/'+sys.argv[1]; s=open(p).read(); t=eval(sys.argv[2],{'s':s})
assert s!=t, 'unchanged'
open(p,'w').write(t)
P
[ $? = 0 ] && (cd /verif; ./check $1 > /tmp/w/mut.out 2>&1; echo "rc=$? $(grep -c VIOLATION /tmp/w/mut.out) $3"; grep key= /tmp/w/mut.out | head -2 | cut -c1-200; grep "CHECK ERROR" -A3 /tmp/w/mut.out)
git -C /repo checkout -q -- .
