#!/bin/bash
# Builds the front end into /verif/build (ignored by git); idempotent.
set -eu
cd "$(dirname "$0")/.."
mkdir -p build
if [ build/fldump -nt frontend/fldump.cpp ]; then exit 0; fi
LLVM=/usr/lib/llvm-18
$LLVM/bin/clang++ $($LLVM/bin/llvm-config --cxxflags) -O1 -fno-rtti frontend/fldump.cpp -o build/fldump.tmp \
    $LLVM/lib/libclang-cpp.so.18.1 $($LLVM/bin/llvm-config --ldflags --libs)
mv build/fldump.tmp build/fldump
