#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")"; pwd); O=${1:-$D/../build}; mkdir -p $O
ZI=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -g1 -w $(llvm-config-18 --cppflags) -fexceptions -I$ZI/include $D/symx.cpp -o $O/symx.tmp -L$(llvm-config-18 --libdir) -lLLVM-18 -L$ZI/lib -lz3 -Wl,-rpath,$ZI/lib -lpthread
mv $O/symx.tmp $O/symx
