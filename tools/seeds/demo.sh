#!/bin/bash
# cwd: the repository. Builds demo.cc with its sources in a scratch directory and runs it there.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
M=$PWD/core/src/main/cpp
F="-w -std=c++14 -O1 -g -include cstdint -include iostream -include limits -include algorithm -I$M/algorithm -I$M/interfaces -I$M -I$PWD/core -I$d -pthread @FLAGS@"
n=0
for f in $d/demo.cc $(find $M -name '*.cc' | sort); do n=$((n+1)); echo "$f $t/$n.o"; done |
  xargs -P 8 -L 1 sh -c 'g++ '"$F"' -c "$0" -o "$1"' || exit 1
g++ $F $t/*.o -o $t/demo || exit 1
cd "$t" && ASAN_OPTIONS=detect_leaks=0 timeout 200 @RUN@ ./demo > /dev/null
