#!/bin/bash
# full_demo.sh ID < demo.cpp: lays a demonstration for the complete library (with its own copy of the stand-ins) into seeded/ID
v=$(cd "$(dirname "$0")/.." && pwd); d=$v/seeded/$1; mkdir -p $d; rm -rf $d/shim; cp -r $v/shim $d/shim; cp $v/tools/fulldemo/demo.sh $v/tools/fulldemo/common.hpp $d/; cat > $d/demo.cpp
