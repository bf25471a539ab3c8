#!/bin/bash
# Builds the AST dumper into $1 (default /verif/tool/bin/jalidump).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/bin/jalidump}
mkdir -p "$(dirname "$out")"
LLVM=/usr/lib/llvm-18
/usr/bin/g++ -std=c++17 -O1 -fno-rtti -w -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS \
  -I$LLVM/include "$here/jalidump.cc" -o "$out.tmp.$$" \
  -L$LLVM/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$LLVM/lib
mv -f "$out.tmp.$$" "$out"
