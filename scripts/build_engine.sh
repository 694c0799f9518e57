#!/bin/bash
# Builds the symbolic executor into /verif/build (idempotent, locked).
set -e
cd "$(dirname "$0")/.."
mkdir -p build
exec 9>build/.engine.lock
flock 9
sum=$(cat engine/* | sha256sum | cut -c1-16)
if [ -x build/symx ] && [ "$(cat build/symx.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
g++ -std=c++17 -O2 -w -fno-rtti -fexceptions -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  engine/symx.cpp -o build/symx.new -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
mv build/symx.new build/symx
echo "$sum" > build/symx.sum
