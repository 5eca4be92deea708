#!/bin/bash
# builds the symbolic executor into $1
set -e
cd "$(dirname "$0")"
g++ -O2 -g1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS engine.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
