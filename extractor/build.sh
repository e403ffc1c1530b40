#!/bin/bash
# builds nsx into $1 (default: ../build/nsx)
cd "$(dirname "$0")"; out=${1:-../build/nsx}; mkdir -p "$(dirname "$out")"
clang++-18 -O1 -std=c++17 -fno-rtti -w nsx.cpp -o "$out.tmp.$$" $(llvm-config-18 --cppflags) \
  -L/usr/lib/llvm-18/lib /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib && mv "$out.tmp.$$" "$out"
