#!/bin/bash
# Builds the driver from /repo's current working tree into DIR (default /verif/build/driver-XXXX).
set -eu
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
out=$1
mkdir -p "$out"
flags="-std=c++11 -O1 -g -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -w -D__forceinline=inline -include cstring -I$repo/include"
pids=()
for f in "$repo"/src/*.cpp; do
    o="$out/$(basename "$f").o"
    ( g++ $flags -c "$f" -o "$o" ) & pids+=($!)
done
( g++ $flags -std=c++14 -c "$here/driver.cpp" -o "$out/driver.o" ) & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
g++ $flags "$out"/*.o -o "$out/driver"
