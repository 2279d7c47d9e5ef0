#!/bin/bash
# dev helper: compile one harness to bitcode: hb.sh name out.bc [defs]
n=$1; o=$2; shift 2; R=${SYMX_REPO:-/repo}
clang++-18 -std=c++17 -O1 -g1 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -D_GLIBCXX_EXTERN_TEMPLATE=0 -D_GLIBCXX_ASSERTIONS -isystem /verif/shim -I$R/include -I$R -I/verif/harness -iquote $R/include/utils -fopenmp-simd -w -emit-llvm -c "$@" /verif/harness/$n.cpp -o $o.0 && llvm-link-18 $o.0 /verif/build/rt.bc -o $o
