#!/bin/bash
# build.sh OUTDIR: the package sigrid as it would be installed, from $REPO's working tree
set -e
OUT=$1; REPO=${REPO:-/repo}; mkdir -p "$OUT/sigrid" "$OUT/o"
cp "$REPO"/py/*.py "$OUT/sigrid/"
INC="-I$REPO/cpp"; for d in "$REPO"/build "$REPO"/cpp/build; do [ -d "$d" ] && INC="$INC -I$d"; done
pids=()
for f in "$REPO"/cpp/*.cpp; do g++ -std=gnu++17 -O1 -fPIC -w $INC -c "$f" -o "$OUT/o/$(basename "$f" .cpp).o" & pids+=($!); done
for p in "${pids[@]}"; do wait $p; done
g++ -shared -o "$OUT/sigrid/libsigrid.so" "$OUT"/o/*.o -l:liblapack.so.3 || g++ -shared -o "$OUT/sigrid/libsigrid.so" "$OUT"/o/*.o -llapack
rm -rf "$OUT/o"
