#!/bin/bash
# measures the accuracy of the Coulomb functions of /repo (the fixed tree) and writes harness/coulombtable.hpp: run.sh [POINTS PER CELL]
cd "$(dirname "$0")"; w=$(mktemp -d); trap 'rm -rf "$w"' EXIT; python3 ../../slice/gen.py ${VERIF_REPO:-/repo}/src $w/gen
g++ -std=c++17 -O2 -w -I$w/gen -I${VERIF_REPO:-/repo}/src -isystem /usr/include/eigen3 coulomb.cpp -o $w/bin || exit 1
for i in 0 1 2 3 4 5 6 7; do $w/bin $i 8 ${1:-8000} > $w/out.$i & done; wait
{ echo "// made by tools/calibrate/run.sh"; echo "namespace coulombbin { const std::map< int, Accuracy > table = {"; sort -n $w/out.*; echo "}; }"; } > ../../harness/coulombtable.hpp
