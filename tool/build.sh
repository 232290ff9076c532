#!/bin/bash
# builds the front end if it is missing or older than its source
set -e
cd "$(dirname "$0")"
OUT=../.build; mkdir -p $OUT
H=$(sha256sum frontend.cc | cut -c1-16)
BIN=$OUT/frontend-$H
[ -x "$BIN" ] && { echo "$BIN"; exit 0; }
clang++-18 -std=c++17 -O0 -fno-rtti -w -I/usr/lib/llvm-18/include frontend.cc -o "$BIN.$$" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so >&2
mv "$BIN.$$" "$BIN"
echo "$BIN"
