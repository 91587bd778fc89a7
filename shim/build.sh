#!/bin/bash
# Builds the V8 shim (node addon) into $1. Depends only on /verif/shim and the installed node.
set -e
out=$1; here=$(cd "$(dirname "$0")" && pwd); mkdir -p "$out"
stamp=$(cat "$here"/*.cc "$here"/*.c "$here"/*.h "$here"/build.sh | sha256sum | cut -d' ' -f1)
[ -f "$out/shim.node" ] && [ "$(cat "$out/stamp" 2>/dev/null)" = "$stamp" ] && exit 0
cd "$out"
g++ -std=c++17 -O1 -w -fPIC -fno-rtti -I/usr/include/node -I"$here" -c "$here/binding_ext.cc" -o ext.o &
g++ -std=c++17 -O1 -w -fPIC -fno-rtti -I/usr/include/node -I"$here" -c "$here/shim.cc" -o shim.o &
gcc -O1 -fPIC -c "$here/stubs.c" -o stubs.o &
wait
g++ -shared -o shim.node shim.o ext.o stubs.o
echo "$stamp" > stamp
