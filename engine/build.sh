#!/bin/sh
# build the verifier: build.sh OUT
cd "$(dirname "$0")" || exit 2
exec g++ -std=c++17 -O1 -w $(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-std=c++[0-9]*//;s/-fno-exceptions//') -fexceptions -frtti nvc.cpp -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lgmpxx -lgmp -lquadmath
