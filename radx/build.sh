#!/bin/bash
# builds radx into /verif/.build/radx (git-ignored) if it is missing or older than its source
set -e
cd "$(dirname "$0")"
out=../.build; mkdir -p $out
if [ ! -x $out/radx ] || [ radx.cpp -nt $out/radx ]; then
  g++ -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cppflags) radx.cpp -o $out/radx.tmp$$ \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 
  mv $out/radx.tmp$$ $out/radx
fi
