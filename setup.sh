#!/bin/bash
# builds the AST extractor (clang libraries are installed)
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
clang++-18 -std=c++17 -O1 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-everything fvc/astdump/astdump.cpp -o build/astdump.tmp /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
mv build/astdump.tmp build/astdump
