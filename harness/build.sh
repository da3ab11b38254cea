#!/bin/bash
# Build the harness (whole-program bitcode + native binary) from the sources in /repo.
# usage: build.sh BUILD_DIR
set -e
B=${1:-/verif/.build}; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$B"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
T="$B/target"
gcc -O1 -g -c "$H/rt/sxrt.c" -o "$B/sxrt.o"
# the C++ interface and its entries: bitcode for the executor, objects for the native binary
N=$(echo "${RUSTUP_HOME:-$HOME/.rustup}"/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin)
X=()
for f in stub real; do
  [ -f "$H/cxx/$f.cc" ] || continue
  /usr/bin/clang++ -std=c++17 -O1 -gline-tables-only -fno-exceptions -fno-rtti -fno-vectorize -fno-slp-vectorize -I/repo/ipmb-ffi/include -I"$H/cxx" -emit-llvm -c "$H/cxx/$f.cc" -o "$B/$f.0.bc" >"$B/cxx.log" 2>&1 || { tail -60 "$B/cxx.log"; exit 3; }
  "$N/opt" -passes=internalize,globaldce -internalize-public-api-list="$(grep -oE '\b(x_[a-z_0-9]+|cxx_[a-z_0-9]+)\(\)' "$H/cxx/$f.cc" | sed "s/()//" | sort -u | paste -sd,),_Znwm,_Znam,_ZdlPv,_ZdaPv,_ZdlPvm,_ZdaPvm,__cxa_pure_virtual,$("$N/llvm-nm" "$B/$f.0.bc" | grep -oE "_ZSt[0-9]+__throw[A-Za-z0-9_]*" | paste -sd,)" "$B/$f.0.bc" -o "$B/$f.bc"
  "$N/llc" -O1 -relocation-model=pic -filetype=obj "$B/$f.bc" -o "$B/$f.o"; X+=("$B/$f.bc")
done
cp /repo/Cargo.lock "$H/Cargo.lock"
/bin/rm -f "$T"/release/deps/ipmbsx*
cd "$H"
export SX_BUILD="$B" SX_LLC="$N/llc"
cargo rustc --release --offline --target-dir "$T" -- -C save-temps -C linker="$H/ld.sh" -C linker-flavor=gcc -C link-arg="$B/sxrt.o" -C link-arg="$B/stub.o" -C link-arg="$B/real.o" -C link-arg=-ldl -C link-arg=-Wl,--unresolved-symbols=ignore-all -A warnings >"$B/cargo.log" 2>&1 || { tail -60 "$B/cargo.log"; exit 3; }
"$N/llvm-link" "$B/hooked.bc" "${X[@]}" -o "$B/harness.bc.tmp"; mv "$B/harness.bc.tmp" "$B/harness.bc"
cp "$T/release/ipmbsx" "$B/harness.tmp"; mv "$B/harness.tmp" "$B/harness"
