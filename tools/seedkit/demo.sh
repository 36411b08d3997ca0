#!/bin/bash
# builds the simulation code of the current directory's repository together with demo.cpp
# (third-party libraries are replaced by the stand-ins beside this file) and runs it
D=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
mkdir "$W/tree" "$W/run"
cp -r "$REPO/src" "$REPO/include" "$W/tree/"
rm -f "$W/tree/include/defines.hpp"
FL=$(cat "$D/flags" 2>/dev/null)
export CXX="g++ -std=c++17 -O0 -w -fopenmp $FL -I$D/kit -I$W/tree/include"
cd "$W" || exit 2
{ find tree/src -name '*.cpp' ! -name PiCoPiC.cpp; echo "$D/demo.cpp"; } |
  xargs -P 8 -I{} sh -c 'o=$(echo "{}" | tr / _).o; $CXX -c "{}" -o "$o"' || { echo "demo: build failed"; exit 2; }
$CXX *.o -o demo || exit 2
cd run && OMP_NUM_THREADS=1 timeout 120 ../demo
