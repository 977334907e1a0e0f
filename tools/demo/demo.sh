#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demobuildXXXXXX); R=$(pwd)
g++ -std=c++2a -O1 -g -w -fno-access-control -march=x86-64-v2 -mclflushopt -DDEFAULT_CACHELINE_SIZE=64 -I"$D" -I$R -I$R/include -I$R/containers -I$R/containers/cliffMap -I$R/hashing -I$R/tests "$D/demo.cpp" -o "$T/demo" -pthread; r=$?
if [ $r = 0 ]; then "$T/demo"; r=$?; fi
rm -rf "$T"; exit $r
