#!/bin/bash
# development helper: compile harness $1 for targets $2.. and show the errors only
V=$(cd "$(dirname "$0")/.." && pwd); s=$1; shift
for t in "$@"; do ( "$V/tools/cc.sh" "$V/harness/$s.cc" $t /tmp/try.$s.$t.bc 2>&1 | grep -E "error:|requested here" | grep -E "error:|RegT<" | sed -E 's/.*RegT<[a-zA-Z0-9_:]*::(t[A-Za-z0-9]*), ([a-z A-Z0-9_:]*),.*/    \1<\2>/' | cut -c1-250 | sort | uniq -c | sort -rn | head -${TRYN:-14} | sed "s/^/$t: /" ) & done; wait
