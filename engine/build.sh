#!/bin/bash
# Builds the analyser into $1 (default: /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
cxx="$(llvm-config-18 --cxxflags) -O2 -fno-exceptions -w"
pids=()
for f in core engine facts main; do
  if [ ! -f "$out/$f.o" ] || [ "$here/$f.cc" -nt "$out/$f.o" ] || [ "$here/core.h" -nt "$out/$f.o" ]; then
    clang++-18 $cxx -c "$here/$f.cc" -o "$out/$f.o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
clang++-18 -o "$out/pscmlint.tmp" "$out"/{core,engine,facts,main}.o $(llvm-config-18 --ldflags --libs) -lpthread
mv "$out/pscmlint.tmp" "$out/pscmlint"
