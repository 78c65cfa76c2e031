#!/bin/bash
# builds the analyser into $1 (default: /verif/_build), unless it is there already
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../_build}
mkdir -p "$out"
h=$(sha256sum < "$here/mrai.cpp" | cut -c1-32)
if [ ! -x "$out/mrai" ] || [ "$(cat "$out/mrai.hash" 2>/dev/null)" != "$h" ]; then
    clang++ -std=c++17 -O2 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions \
        "$here/mrai.cpp" -o "$out/mrai.tmp.$$" $(llvm-config-18 --ldflags) -lLLVM-18
    mv "$out/mrai.tmp.$$" "$out/mrai"
    echo "$h" > "$out/mrai.hash"
fi
