#!/bin/bash
# Builds the symx engine into /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"
OUT=${1:-../build}; mkdir -p "$OUT"
CXX=clang++-18; command -v $CXX >/dev/null || CXX=clang++
INC="-isystem $(llvm-config-18 --includedir 2>/dev/null || llvm-config --includedir)"
FLAGS="-std=c++17 -O2 -fno-rtti -Wno-everything $INC"
$CXX $FLAGS -c expr.cc -o $OUT/expr.o & P1=$!
$CXX $FLAGS -c solver.cc -o $OUT/solver.o & P2=$!
$CXX $FLAGS -c engine.cc -o $OUT/engine.o & P3=$!
wait $P1; wait $P2; wait $P3
$CXX $OUT/expr.o $OUT/solver.o $OUT/engine.o -o $OUT/symx.tmp $(llvm-config-18 --ldflags --libs 2>/dev/null || llvm-config --ldflags --libs) -lz3 -lpthread
mv $OUT/symx.tmp $OUT/symx
