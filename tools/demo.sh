#!/bin/bash
# builds the small program beside this file against the library built in /repo and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
F="-std=c++17 -O1 -DNDEBUG -fpermissive -w -include utility -DCOOLDIFF_SCALAR_TYPE=2 -DUSE_COMPLEX_MATH -DUSE_DYNAMIC_ASSERTIONS -DUSE_VIRTUAL_FUNCTIONS"
INC="$(find "$repo/include" -type d ! -path '*CUDA/src*' -printf '-I%p ')"
g++ $F $INC -I/usr/include/eigen3 "$here/demo.cpp" "$repo/_build/libCoolDiff.a" -lpthread -o "$w/demo"
rc=$?
if [ $rc = 0 ]; then timeout 120 "$w/demo"; rc=$?; fi
rm -rf "${w:?}"
exit $rc
