#!/bin/bash
# Builds the analysis tools from the committed sources. With arguments: only those tools.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
L=/usr/lib/llvm-18
FLAGS="$($L/bin/llvm-config --cxxflags | sed 's/-std=c++17//') -std=c++20 -fno-rtti -O2"
want() { [ $# -eq 0 ] && return 0; }
build() { # name, extra libs
  local n=$1; shift
  if [ -x build/$n ] && [ build/$n -nt engine/$n.cpp ]; then return 0; fi
  $L/bin/clang++ $FLAGS engine/$n.cpp -o build/$n.tmp.$$ $($L/bin/llvm-config --ldflags) "$@" -lLLVM-18
  mv build/$n.tmp.$$ build/$n
}
for t in ${*:-irfacts astfacts irdump}; do
  case $t in
    astfacts) build astfacts $L/lib/libclang-cpp.so.18.1 & ;;
    *) build $t & ;;
  esac
done
for j in $(jobs -p); do wait $j; done
