#!/bin/bash
# Compiles demo.cpp against the sources of the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
for f in $(find src -name '*.c'); do gcc -std=gnu99 -w -O1 -g -fsanitize=address -I. -c "$f" -o "$t/$(basename "$f").o" || exit 98; done
g++ -std=gnu++14 -w -O1 -g -fsanitize=address -I. -I"$here" "$here/demo.cpp" auto_test/*.cpp "$t"/*.o -lgtest -lpthread -lm -o "$t/demo" || exit 98
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$t/demo"
