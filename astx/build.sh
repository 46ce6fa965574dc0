#!/bin/bash
# builds the exporter: build.sh OUT
set -eu
D=$(cd "$(dirname "$0")" && pwd)
FL=$(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//')
clang++-18 -std=c++17 -O0 -fno-rtti $FL "$D/astx.cpp" -o "$1.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM
mv "$1.tmp.$$" "$1"
