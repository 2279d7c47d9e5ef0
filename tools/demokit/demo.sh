#!/bin/bash
# builds the demonstration against the current tree and runs it
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
s=""; [ -f "$d/srcs" ] && s=$(cat "$d/srcs")
f=""; [ -f "$d/flags" ] && f=$(cat "$d/flags")
ulimit -v 8000000
g++ -std=c++17 -O1 -w -pthread -fopenmp-simd $f -isystem "$d/kit" -Iinclude -I. "$d/demo.cpp" $s -Wl,--unresolved-symbols=ignore-all -no-pie -o "$w/demo" || { echo "demo does not build"; exit 2; }
timeout 120 "$w/demo"
