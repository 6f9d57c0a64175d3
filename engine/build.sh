#!/bin/bash
# builds the symbolic executor into $1
set -e
cd "$(dirname "$0")"; out="$1"; mkdir -p "$out"
L=$(ls "$(rustc --print sysroot)"/lib/libLLVM.so.* "$(rustc --print sysroot)"/lib/libLLVM-*.so 2>/dev/null | head -1)
for f in expr solver loader exec; do g++ -O2 -std=c++17 -Wno-deprecated-declarations -I/usr/include/llvm-c-18 -c $f.cpp -o "$out/$f.o" & done
for j in $(jobs -p); do wait $j; done
g++ "$out"/{expr,solver,loader,exec}.o -o "$out/engine" "$L" -lz3 -lpthread -Wl,-rpath,"$(dirname "$L")"
