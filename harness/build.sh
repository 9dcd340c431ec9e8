#!/bin/bash
# build.sh REPO OUTDIR: compiles the library's sources and the driver with sanitizers into OUTDIR/driver
set -u
REPO=$1; OUT=$2; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
unset CPLUS_INCLUDE_PATH CPATH CXXFLAGS LDFLAGS
CXX=${VERIF_CXX:-g++}
FLAGS="-std=c++17 -O1 -g0 -fno-omit-frame-pointer -w -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS -I$REPO/include"
pids=()
for f in "$REPO"/src/*.cpp "$H"/driver.cpp "$H"/values.cpp "$H"/winmain_linux.cpp; do
  b=$(basename "$f" .cpp)
  [ "$b" = winmain ] && continue
  $CXX $FLAGS -DPO_WINMAIN_CPP="\"$REPO/src/winmain.cpp\"" -c "$f" -o "$OUT/$b.o" 2>"$OUT/$b.log" &
  pids+=($!)
done
rc=0
for p in "${pids[@]}"; do wait $p || rc=1; done
[ $rc = 0 ] || { cat "$OUT"/*.log >&2; exit 1; }
$CXX -fsanitize=address,undefined "$OUT"/*.o -o "$OUT/driver" || exit 1
