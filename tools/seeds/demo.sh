#!/bin/bash
# builds demo.cpp against the sources in the current directory (/repo) and runs it in a scratch directory
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
FL="-DSRC_DIR=__FILE__ -std=c++17 -O1 -fopenmp -w -isystem /usr/include/eigen3 @FLAGS@"
cp -r "$R/src" "$D/src"; [ -d "$H/deps" ] && cp -r "$H/deps" "$D/deps"
[ -n "@SPLINE@" ] && sed -i 's/^#define SPLINEDEG .*/#define SPLINEDEG @SPLINE@/' "$D/src/tools.hpp"
for f in "$D"/src/simulation/*.cpp; do
  case "$f" in */save_data.cpp) [ -d "$H/deps" ] || continue;; esac
  g++ $FL -I"$D" -c "$f" -o "$D/$(basename "$f").o" || touch "$D/failed" &
done
g++ $FL -I"$D" -I"$H" -c "$H/demo.cpp" -o "$D/demo.o" || touch "$D/failed" &
wait
[ -e "$D/failed" ] && exit 2
g++ -fopenmp "$D"/*.o -o "$D/demo" || exit 2
mkdir "$D/run"; cd "$D/run"; timeout 120 "$D/demo"
