#!/bin/bash
# Builds the symbolic executor into $1 (default: ../.build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../.build}; mkdir -p "$out"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
LF="$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=[^ ]*//')"
stamp=$(cat "$here"/*.cpp "$here"/*.h "$here"/build.sh | sha256sum | cut -c1-16)
if [ -x "$out/sx" ] && [ "$(cat "$out/sx.stamp" 2>/dev/null)" = "$stamp" ]; then exit 0; fi
T=$(mktemp -d "$out/obj.XXXXXX"); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O2 -w -I$Z3/include -c "$here/expr.cpp" -o $T/expr.o &
p1=$!
g++ -std=c++17 -O2 -w $LF -fexceptions -c "$here/interp.cpp" -o $T/interp.o &
p2=$!
g++ -std=c++17 -O2 -w -c "$here/main.cpp" -o $T/main.o
wait $p1; wait $p2
g++ -rdynamic $T/*.o -o $T/sx -L/usr/lib/llvm-18/lib -lLLVM-18 -L$Z3/lib -lz3 -Wl,-rpath,$Z3/lib -lgmpxx -lgmp -lpthread -ldl
mv $T/sx "$out/sx"; echo "$stamp" > "$out/sx.stamp"
