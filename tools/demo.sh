#!/bin/bash
# builds demo.cpp with the library's sources of the current directory and runs
# it: exit 0 when the property holds, nonzero when it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
FLAGS="-g -O1 -std=gnu++17 -w -include cstdint -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -DRDTSCP=1 -faligned-new -pthread -I$D/stubs -I$PWD -I$PWD/raftinc $EXTRA"
ls src/*.cpp | grep -v sysschedutil | xargs -P 8 -I{} sh -c 'g++ '"$FLAGS"' -DLIBCOMPILE=1 -c {} -o '"$T"'/$(basename {}).o' &
g++ $FLAGS -c "$D/demo.cpp" -o "$T/demo.o"; R=$?
wait
[ $R = 0 ] || exit 3
g++ -o "$T/demo" "$T"/*.o -pthread $EXTRA || exit 3
cd "$T" && timeout -k 1 ${LIMIT:-60} ./demo
