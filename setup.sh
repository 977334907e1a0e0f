#!/bin/bash
# Builds the symbolic executor into /verif/.build (git-ignored).
set -e
D=$(cd "$(dirname "$0")" && pwd); mkdir -p "$D/.build" "$D/evidence"
g++ -O2 -g -std=c++17 -w $(llvm-config-18 --cppflags) "$D/engine/engine.cpp" -o "$D/.build/engine.tmp" $(llvm-config-18 --ldflags --libs) -lz3
mv "$D/.build/engine.tmp" "$D/.build/engine"; echo "engine built"
g++ -O1 -std=c++17 -w $(llvm-config-18 --cppflags) "$D/engine/instrument.cpp" -o "$D/.build/instrument" $(llvm-config-18 --ldflags --libs)
clang++-18 -O1 -g -std=c++17 -w -fno-pie -c "$D/engine/replay_rt.cpp" -o "$D/.build/replay_rt.o"; echo "replay built"
