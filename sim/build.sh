#!/bin/bash
# build.sh VARIANT OUTDIR: builds the code under test from $REPO's working tree and links the simulator. VARIANT:
# plain, shared (turns also at accesses to static data), asan. Nothing is written outside of OUTDIR.
# build.sh objects DIR: only the simulator's own objects (they contain nothing of the code under test);
# with SIM_OBJECTS=DIR a later build takes them from there when they come from the same sources.
set -e
V=$1; OUT=$2; REPO=${REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
KEY=$(cat "$HERE"/*.cpp "$HERE"/*.h "$HERE"/*.inc "$HERE"/build.sh | sha256sum | cut -c1-20)
simobj() { # DEF DIR
  for f in rt exec gen main; do
    clang++ -std=gnu++17 -O1 -g -w -fno-pie $1 -I"$HERE" -c "$HERE/$f.cpp" -o "$2/sim_$f.o" & pids+=($!)
  done
}
pids=()
if [ "$V" = objects ]; then
  rm -rf "$OUT"; mkdir -p "$OUT/normal" "$OUT/asan"; simobj "" "$OUT/normal"; simobj -DSIM_ASAN "$OUT/asan"
  for p in "${pids[@]}"; do wait $p; done
  echo "$KEY" > "$OUT/key"; exit 0
fi
mkdir -p "$OUT/o"
COV="-fsanitize-coverage=trace-pc-guard"; SAN=""; DEF=""; SUB=normal
[ "$V" = shared ] && COV="-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"
[ "$V" = asan ] && { SAN="-fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_SANITIZE_VECTOR"; DEF="-DSIM_ASAN"; SUB=asan; }
INC="-I$REPO/cpp -I$REPO/utils"
for d in "$REPO"/build "$REPO"/cpp/build; do [ -d "$d" ] && INC="$INC -I$d"; done
if [ -n "$SIM_OBJECTS" ] && [ "$(cat "$SIM_OBJECTS/key" 2>/dev/null)" = "$KEY" ]; then cp "$SIM_OBJECTS/$SUB"/sim_*.o "$OUT/o/"; else simobj "$DEF" "$OUT/o"; fi
for f in "$REPO"/cpp/*.cpp "$REPO"/utils/*.cpp; do
  clang++ -std=gnu++17 -O1 -g -fPIC -w $COV $SAN $INC -c "$f" -o "$OUT/o/sut_$(basename "$f" .cpp).o" & pids+=($!)
done
clang++ -std=gnu++17 -O1 -g -fPIC -w $COV $SAN $INC -c "$HERE/shim.cpp" -o "$OUT/o/sut_shim_sim.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p; done
W=""
for s in malloc calloc realloc free pthread_mutex_lock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_once \
  __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort time clock clock_gettime gettimeofday _ZNSt6chrono3_V212steady_clock3nowEv \
  _ZNSt6chrono3_V212system_clock3nowEv rand random drand48 srand srandom; do W="$W -Wl,--wrap=$s"; done
clang++ -shared -Wl,-Bsymbolic-functions $SAN -o "$OUT/libsut.so" "$OUT"/o/sut_*.o $W
clang++ -no-pie -rdynamic $SAN -o "$OUT/sim" "$OUT"/o/sim_*.o -L"$OUT" -lsut -Wl,-rpath,'$ORIGIN' -lpthread -ldl
rm -rf "$OUT/o"
