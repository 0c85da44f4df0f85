#!/bin/bash
# Builds the symbolic executor into /verif/build (git-ignored).
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$(dirname "$here")/build; mkdir -p "$out"
if [ "$out/sxe" -nt "$here/exec.cpp" ] && [ "$out/sxe" -nt "$here/state.hpp" ] && [ "$out/sxe" -nt "$here/solver.hpp" ] && [ "$out/sxe" -nt "$here/expr.hpp" ]; then exit 0; fi
g++ -std=c++17 -O2 -g1 -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions -frtti "$here/exec.cpp" -o "$out/sxe.$$" $(llvm-config-18 --ldflags --libs) -lz3
mv "$out/sxe.$$" "$out/sxe"
