#!/bin/bash
# Builds the engine into $1 (default /verif/build/rsym).
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build/rsym}; mkdir -p "$(dirname "$OUT")"
SYS=$(RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --print sysroot)
LL=$(ls $SYS/lib/libLLVM.so.* | head -1)
T=$(mktemp -d); trap 'rm -r "$T"' EXIT
for f in expr module main; do g++ -std=c++17 ${OPT:--O2} -w -I/usr/lib/llvm-18/include -c "$D/$f.cpp" -o "$T/$f.o" & done; wait
g++ "$T"/expr.o "$T"/module.o "$T"/main.o -o "$OUT.tmp$$" "$LL" -Wl,-rpath,"$SYS/lib" -lz3; mv "$OUT.tmp$$" "$OUT"
