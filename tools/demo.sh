#!/bin/bash
# builds demo.cpp against the sources in the current directory (/repo) and runs it; exit 0 = behaves
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
export W
F="-std=c++11 -O0 -g0 -w -DNDEBUG -D_GLIBCXX_ASSERTIONS -fno-access-control -I $PWD/src -isystem /usr/include/eigen3"
export F
ls "$PWD"/src/*.cpp | xargs -P 8 -I{} sh -c 'g++ $F -c {} -o "$W"/$(basename {}).o' || exit 2
g++ $F "$D"/demo.cpp "$W"/*.o -o "$W"/demo || exit 2
cd "$W" && timeout 60 ./demo
