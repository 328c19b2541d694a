#!/bin/bash
# build the engine into $1
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:?}; mkdir -p "$out"
g++ -std=c++17 -O2 -w $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') "$here/tcsym.cpp" "$here/expr.cpp" -o "$out/tcsym.tmp" $(llvm-config-18 --ldflags --libs) -lz3 -ldl
mv "$out/tcsym.tmp" "$out/tcsym"
