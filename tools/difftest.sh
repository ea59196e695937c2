#!/bin/bash
# usage: difftest.sh SRC TARGET SEEDS...   -- validates the VC generator: concrete execution of the IR vs the hardware
V=$(cd "$(dirname "$0")/.." && pwd); src=$1 t=$2; b=$(basename $src .cc); W=$(mktemp -d /tmp/vpdiff.XXXXXX)
bash $V/tools/cc.sh $src $t $W/x.bc || { rm -rf "$W"; exit 1; }
bash $V/tools/native.sh $src $t $W/nat || { rm -rf "$W"; exit 1; }
for s in "${@:3}"; do $V/build/dv $W/x.bc --concrete $s > $W/e 2>&1; $W/nat log $s > $W/n; if diff $W/e $W/n > $W/d; then echo "$b $t seed $s same $(wc -l < $W/n) lines"; else echo "$b $t seed $s DIFF $(wc -l < $W/d)"; head -${VP_HEAD:-6} $W/d; fi; done
rm -rf "$W"
