#!/bin/bash
# builds the symbolic executor into /verif/build (git-ignored)
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/build"
H=$(cat "$D"/engine/*.hpp "$D"/engine/*.cpp "$D"/engine/build.sh | sha256sum | cut -c1-16)
if [ -x "$D/build/symx" ] && [ "$(cat "$D/build/symx.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
/usr/bin/g++ -O2 -g1 -std=c++17 -frtti -fexceptions -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/engine/symx.cpp" -o "$D/build/symx.tmp.$$" -rdynamic -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp -ldl -lpthread
mv "$D/build/symx.tmp.$$" "$D/build/symx"
echo "$H" > "$D/build/symx.hash"
