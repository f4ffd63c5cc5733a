#!/bin/bash
# build.sh OUTDIR: compiles the real sources of $REPO (default /repo) with the harness; prints the binary path
set -e
REPO=${REPO:-/repo}; OUT=$1; HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CXX="g++ -std=c++17 -O1 -g1 -fno-omit-frame-pointer -fsanitize=address -D_GLIBCXX_ASSERTIONS -w -I$REPO/libs/libpcache/include -I$REPO/lazyfs/include -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL -D_FILE_OFFSET_BITS=64 -DFUSE_USE_VERSION=30 -I/usr/include/fuse3"
objs=""; pids=""
comp() { $CXX -c "$1" -o "$2" $3 & pids="$pids $!"; objs="$objs $2"; }
for f in $(find $REPO/libs/libpcache/src -name '*.cpp'); do comp $f $OUT/p_$(echo ${f#$REPO/} | tr / _).o; done
comp $REPO/lazyfs/src/lazyfs.cpp $OUT/lazyfs.o
DEF=""; grep -q '^std::shared_mutex cache_command_lock' $REPO/lazyfs/src/lazyfs.cpp && DEF=-DHAVE_CMDLOCK
$CXX $DEF -c $HERE/lfsx.cpp -o $OUT/lfsx.o & hp=$!
$CXX -fno-access-control -c $HERE/cfgx.cpp -o $OUT/cfgx.o & hq=$!
$CXX -Dmain=lazyfs_main -c $REPO/lazyfs/src/main.cpp -o $OUT/main.o & hr=$!
for p in $pids $hp $hq $hr; do wait $p || exit 1; done
$CXX -o $OUT/cfgx $OUT/cfgx.o $OUT/main.o $objs -lspdlog -lfmt -lpthread &
$CXX -o $OUT/lfsx $OUT/lfsx.o $objs -lspdlog -lfmt -lpthread
wait
[ -x $OUT/cfgx ]
