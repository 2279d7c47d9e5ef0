#!/bin/bash
# builds the symbolic engine and the runtime bitcode (offline)
set -e
cd "$(dirname "$0")"; mkdir -p build evidence
if [ ! -x build/symx ] || [ -n "$(find engine -newer build/symx -type f)" ]; then bash engine/build.sh build; fi
clang++-18 -std=c++17 -O1 -g1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-builtin -w -emit-llvm -c harness/rt.cpp -o build/rt.bc
clang++-18 -std=c++17 -O1 -g -fsanitize=address -w -Iharness -c harness/native_rt.cpp -o build/native_rt.o
