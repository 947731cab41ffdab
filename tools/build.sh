#!/bin/bash
# Builds the AST extractor (libTooling) into $1 (default /verif/build/extract).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/extract}
mkdir -p "$(dirname "$out")"
if [ -x "$out" ] && [ "$out" -nt "$here/extract.cpp" ]; then exit 0; fi
tmp="$out.tmp.$$"
/usr/bin/g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
  "$here/extract.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -L/usr/lib/x86_64-linux-gnu -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv "$tmp" "$out"
