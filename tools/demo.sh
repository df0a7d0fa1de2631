#!/bin/bash
# cwd: the built repository. Exit 0 when the property holds in the demonstration.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -Iinclude -isystem /usr/include/eigen3 "$d/demo.cpp" _build/libfes.a -pthread -o "$t/demo" || exit 2
timeout 120 "$t/demo"
