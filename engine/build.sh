#!/bin/bash
# Build the symbolic executor into $1 (default /verif/.build/symx).
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/.build/symx}
mkdir -p "$(dirname "$OUT")"
LIB=$(ls -d "${RUSTUP_HOME:-$HOME/.rustup}"/toolchains/nightly-x86_64-unknown-linux-gnu/lib)
SO=$(ls "$LIB"/libLLVM.so.* | head -1)
g++ -std=c++17 -O2 -g1 -Wno-format-truncation -I/usr/include/llvm-c-18 symx.cpp -o "$OUT.tmp.$$" "$SO" -Wl,-rpath,"$LIB" -lz3
mv "$OUT.tmp.$$" "$OUT"
