#!/bin/bash
# build the engine into $1 (default ../build/engine) ; parallel compile
set -e
cd "$(dirname "$0")"; OUT=${1:-../build/engine}; mkdir -p "$OUT"
for f in expr solver ir exec; do g++ -std=c++17 -O2 -Wall -Wno-misleading-indentation -Wno-parentheses -Wno-stringop-overflow -Wno-maybe-uninitialized -c $f.cpp -o "$OUT/$f.o" & done
for j in $(jobs -p); do wait $j; done
g++ "$OUT"/{expr,solver,ir,exec}.o -lz3 -o "$OUT/symex.tmp"; mv "$OUT/symex.tmp" "$OUT/symex"
