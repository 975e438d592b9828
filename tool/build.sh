#!/bin/bash
# Builds the IR dumper used by every check.
cd "$(dirname "$0")" || exit 1
LC=/usr/lib/llvm-18/bin/llvm-config
mkdir -p bin
g++ -O1 -std=c++17 $($LC --cppflags) -fno-rtti irdump.cpp -o bin/irdump $($LC --ldflags) -lLLVM-18 -Wl,-rpath,$($LC --libdir) || exit 1
