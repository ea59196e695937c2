#!/bin/bash
# Builds the deductive verifier (VC generator over LLVM IR) into /verif/build.
set -e
cd "$(dirname "$0")"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p build/obj
CF="-std=c++17 -O2 -g1 -Wno-parentheses -I/usr/lib/llvm-18/include -I$Z/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE"
newest=$(ls -t engine/*.h harness/vp_rng.h | head -1)
pids=()
for f in term solve tactics exec calls main selftest; do
  o=build/obj/$f.o
  if [ ! -f $o ] || [ engine/$f.cc -nt $o ] || [ $newest -nt $o ]; then g++ $CF -c engine/$f.cc -o $o & pids+=($!); fi
done
for p in "${pids[@]}"; do wait $p; done
g++ build/obj/{term,solve,tactics,exec,calls,main,selftest}.o -o build/dv.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -Wl,-rpath,/usr/lib/llvm-18/lib
mv build/dv.tmp build/dv
echo "setup ok: $(pwd)/build/dv"
