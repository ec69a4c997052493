#!/bin/bash
# build.sh FLAVOR: (re)builds build/FLAVOR/vrssim from /repo's working tree. Safe to run concurrently.
cd "$(dirname "$0")" || exit 2
flavor=$1
mkdir -p build/$flavor
exec 9>build/$flavor.lock
flock 9
export CCACHE_DIR=$PWD/build/ccache CCACHE_MAXSIZE=2G
launcher=; command -v ccache >/dev/null && launcher=-DCMAKE_CXX_COMPILER_LAUNCHER=ccache
log=build/$flavor.log
{ cmake -S sim -B build/$flavor -G Ninja $launcher -DCMAKE_BUILD_TYPE=None -DFLAVOR=$flavor && ninja -C build/$flavor; } >$log 2>&1 || { grep -E "error|FAILED" $log | head -40; tail -5 $log; exit 2; }
