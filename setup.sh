#!/bin/bash
# Builds the simulators from /repo's working tree.
set -e
cd "$(dirname "$0")"
./build.sh asan
[ -f sim/race/tsanrt.cc ] && ./build.sh race
echo "setup done"
