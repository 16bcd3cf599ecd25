#!/bin/bash
# builds the fact extractor (a LibTooling program) into /verif/build
set -e
cd "$(dirname "$0")"
B=../build
mkdir -p $B
if [ ! -x $B/hxfacts ] || [ hxfacts.cpp -nt $B/hxfacts ]; then
  L=/usr/lib/llvm-18
  g++ -O1 -std=c++17 -fno-rtti -w -I$L/include hxfacts.cpp -o $B/hxfacts.tmp.$$ $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
  mv $B/hxfacts.tmp.$$ $B/hxfacts
fi
