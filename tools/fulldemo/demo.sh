#!/bin/bash
# run with cwd /repo after the build; shim/ has stand-ins for the njoy libraries that are not installed
here=$(cd "$(dirname "$0")" && pwd); out=$(mktemp -d); trap 'rm -rf "$out"' EXIT
g++ -std=c++17 -O0 -w -I"$here/shim" -Isrc -isystem /usr/include/eigen3 -I"$here" "$here/demo.cpp" -o "$out/demo" || exit 3
"$out/demo"
