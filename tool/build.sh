#!/bin/bash
# Builds the fact extractor into $1 from the installed LLVM 18.
set -e
cd "$(dirname "$0")"
g++ -O1 -std=c++17 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS \
    -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS ctfacts.cpp -o "$1" \
    /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
