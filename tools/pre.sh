#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
B=$PWD/_build
export CALI_LOG_VERBOSITY=0
cxx() { g++ -std=c++17 -g "$1" -o "$2" -I$PWD/include -I$B/include -I$PWD/src -L$B/src -lcaliper -Wl,-rpath,$B/src -lpthread "${@:3}" || exit 3; }
