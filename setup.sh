#!/bin/bash
# Builds the extractor and fills the extraction cache from /repo's current tree.
set -e
cd "$(dirname "$0")"
mkdir -p build
LLVM=/usr/lib/llvm-18
sum=$(sha256sum extract/extract.cc | cut -c1-16)
if [ ! -x build/extract-$sum ]; then
  clang++ -O1 -std=c++17 -fno-rtti $($LLVM/bin/llvm-config --cxxflags | sed 's/-std=[^ ]*//') \
    extract/extract.cc -o build/extract.$$ -L$LLVM/lib -l:libclang-cpp.so.18.1 -lLLVM
  mv build/extract.$$ build/extract-$sum
fi
if [ "$1" != "--extractor-only" ]; then
  python3 engine/program.py --warm
fi
