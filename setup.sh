#!/bin/bash
# Builds the simulator's system-call seam.  Everything else is Python and is imported from /repo at run time.
set -e
cd "$(dirname "$0")"
mkdir -p build
gcc -O2 -Wall -shared -fPIC -o build/libvsim.so.tmp.$$ sim/shim.c -ldl
mv build/libvsim.so.tmp.$$ build/libvsim.so
