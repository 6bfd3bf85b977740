#!/bin/bash
# Builds the symbolic engine; a no-op when up to date.
set -e
cd "$(dirname "$0")"
mkdir -p ../build
H=$(cat expr.hpp engine.cpp translate.inc interp.inc main.inc build.sh | sha256sum | cut -d' ' -f1)
if [ -x ../build/gsym ] && [ "$(cat ../build/gsym.hash 2>/dev/null)" = "$H" ]; then exit 0; fi
T=../build/gsym.$$
clang++ -std=c++17 -O2 -g1 -w -fexceptions -I/usr/lib/llvm-18/include engine.cpp -o $T -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv $T ../build/gsym
echo $H > ../build/gsym.hash
