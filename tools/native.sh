#!/bin/bash
# usage: native.sh SRC TARGET OUT   -- the same harness, compiled by the compiler the repository is built with
V=$(cd "$(dirname "$0")/.." && pwd); R=${VP_REPO:-/repo}
EXTRA=$(sed -n 's/^\/\/ vp-flags: //p' "$1" | head -1)
NX=$(sed -n 's/^\/\/ vp-native: //p' "$1" | head -1 | sed "s#@R#$R#g")
L=""; for f in abort targets aligned_allocator print per_target; do case "$NX" in *no-$f*) ;; *) L="$L $R/hwy/$f.cc";; esac; done
NX=$(echo "$NX" | sed 's/no-[a-z_]*//g')
O=$(mktemp -d /tmp/vpnat.XXXXXX)
g++ -std=c++17 -O1 -DNDEBUG -w $EXTRA -DVP_TARGET=HWY_$2 -I$R -I$V/harness -c "$1" -o $O/h.o & p=$!
g++ -std=c++17 -O1 -DNDEBUG -w -I$R -I$V/harness "$V/harness/replay_rt.cc" -c -o $O/rt.o & q=$!
wait $p && wait $q && g++ -std=c++17 -O1 -DNDEBUG -w $EXTRA -I$R -I$V/harness $O/h.o $O/rt.o $L $NX -lpthread -o "$3"
rc=$?; rm -rf "$O"; exit $rc
