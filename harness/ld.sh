#!/bin/bash
# Linker of the harness: the crate's object is replaced by one with a hook before each atomic instruction (engine/instrument.inc).
set -e
A=()
for a in "$@"; do
  case "$a" in
    */ipmbsx-*-cgu.0.rcgu.o)
      "$SX_BUILD/symx" --instrument "${a%.o}.bc" "$SX_BUILD/hooked.bc"
      "$SX_LLC" -O1 -relocation-model=pic -filetype=obj "$SX_BUILD/hooked.bc" -o "$SX_BUILD/hooked.o"; A+=("$SX_BUILD/hooked.o");;
    *) A+=("$a");;
  esac
done
exec cc "${A[@]}"
