#!/bin/bash
# build.sh SRC OUT.bc [flags]: compile a harness together with the environment to LLVM bitcode
SRC=$1; OUT=$2; shift 2
D=$(cd "$(dirname "$0")/.." && pwd); R=${REPO:-/repo}
F="-std=c++2a -O1 -g -DSYMBOLIC -DDEFAULT_CACHELINE_SIZE=64 -march=x86-64 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-access-control -D_GLIBCXX_EXTERN_TEMPLATE=0 -Wno-everything -fno-math-errno -fdelayed-template-parsing -mclflushopt -include $D/engine/prelude.h"
I="-I$D/engine/shadow -I$D/engine -I$D/harness -I$R -I$R/include -I$R/containers -I$R/containers/cliffMap -I$R/tests -I$R/hashing"
clang++-18 $F $I "$@" -emit-llvm -c "$SRC" -o "$OUT.h" && clang++-18 ${F/-include */} $I "$@" -emit-llvm -c $D/engine/env.cpp -o "$OUT.e" && llvm-link-18 "$OUT.h" "$OUT.e" -o "$OUT"; r=$?
rm -f "$OUT.h" "$OUT.e"; exit $r
