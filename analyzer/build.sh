#!/bin/bash
# Builds the extractor into /verif/analyzer/bin (ignored by git) unless it is up to date.
set -e
cd "$(dirname "$0")"
mkdir -p bin
h=$(sha256sum extract.cpp | cut -c1-16)
[ -x "bin/extract-$h" ] && exit 0
t=$(mktemp bin/tmp.XXXXXX)
clang++-18 -O1 -std=c++17 -fno-rtti -w extract.cpp -o "$t" $(llvm-config-18 --cppflags) \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$t" "bin/extract-$h"
