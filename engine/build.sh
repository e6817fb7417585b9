#!/bin/bash
# builds the engine next to its sources; output path as $1
g++ -std=c++17 -O2 -w -I/usr/lib/llvm-18/include "$(dirname "$0")/main.cpp" -o "$1" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3
