#!/bin/bash
# builds the verification-condition generator (setup_cmd)
set -e
cd "$(dirname "$0")/.."
mkdir -p build
ZD=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
T=build/vcx.$$
clang++-18 -O1 -std=c++17 -fexceptions -w -o $T engine/vcx.cpp -I$ZD/include -I/usr/lib/llvm-18/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -L/usr/lib/llvm-18/lib -lLLVM-18 $ZD/lib/libz3.so -Wl,-rpath,$ZD/lib
cat engine/*.cpp engine/*.h engine/*.inc engine/build.sh | sha256sum | cut -c1-64 > build/vcx.id
mv -f $T build/vcx
