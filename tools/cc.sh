#!/bin/bash
# usage: cc.sh SRC TARGET OUT.bc   -- harness + real /repo headers -> unoptimised LLVM bitcode
set -o pipefail
V=$(cd "$(dirname "$0")/.." && pwd); R=${VP_REPO:-/repo}
FL="-std=c++17 -O1 -Xclang -disable-llvm-passes -ffp-contract=off -fno-exceptions -fno-rtti -w -DNDEBUG"
EXTRA=$(sed -n 's/^\/\/ vp-flags: //p' "$1" | head -1)
clang++ $FL $EXTRA -DVP_VERIFY -DVP_TARGET=HWY_$2 -I$R -I$V/harness -E "$1" | sed 's/"%v\(cvt\)/"v\1/' | clang++ $FL $EXTRA -x c++-cpp-output -emit-llvm -c - -o "$3"
