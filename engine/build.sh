#!/bin/bash
# Builds the analyser into ../build/mstana (needs the LLVM 18 development files).
set -e
cd "$(dirname "$0")"
B=../build/obj; mkdir -p $B
L=/usr/lib/llvm-18
CXX=${CXX:-$L/bin/clang++}; [ -x "$CXX" ] || CXX=g++
FL="-std=c++17 -O2 -g0 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
pids=()
for f in *.cpp; do
  o=$B/${f%.cpp}.o
  if [ ! -f $o ] || [ $f -nt $o ] || [ -n "$(find . -name '*.h' -newer $o -o -name '*.inc' -newer $o)" ]; then $CXX $FL -c $f -o $o & pids+=($!); fi
done
for p in "${pids[@]}"; do wait $p; done
$CXX -o ../build/mstana $B/*.o -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib -lpthread
