#!/bin/bash
# Builds the symbolic executor into $1 (default: /verif/.build)
set -eu
D=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$(dirname "$D")/.build}
mkdir -p "$OUT"
LC=/usr/bin/llvm-config-18; [ -x $LC ] || LC=/usr/lib/llvm-18/bin/llvm-config
CXX=/usr/bin/g++
T=$(mktemp -d "$OUT/obj.XXXXXX")
trap 'rm -rf "$T"' EXIT
$CXX -O2 -std=c++17 -c "$D/expr.cpp" -o "$T/expr.o" &
P=$!
$CXX -O2 -std=c++17 -fexceptions -I$($LC --includedir) -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -c "$D/exec.cpp" -o "$T/exec.o"
wait $P
$CXX "$T/expr.o" "$T/exec.o" -o "$T/symex" $($LC --ldflags) -lLLVM-18 -lz3 -lpthread
mv -f "$T/symex" "$OUT/symex"
