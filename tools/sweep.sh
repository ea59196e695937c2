#!/bin/bash
# development helper: failing contracts per family for one harness on several targets: sweep.sh UNIT TARGET...
V=$(cd "$(dirname "$0")/.." && pwd); u=$1; shift
for t in "$@"; do echo == $t; NB=100000 timeout ${TO:-280} python3 $V/tools/prof.py $u $t 2>&1 | grep -v '^{"' | python3 -c "
import sys,re,collections
c=collections.defaultdict(list)
for l in sys.stdin:
    m=re.match(r'  ! (t\w+)<(\S+)> (\w+) (.*)',l)
    if not m: print(l[:200].rstrip()); continue
    c[m[1],m[3]].append((m[2],re.sub(r'\[\d+\]','',m[4])[:150]))
for k,v in c.items(): print('  !!',*k,len(v),[x[0] for x in v][:30],v[0][1])
"; done
