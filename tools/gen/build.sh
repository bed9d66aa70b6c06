#!/bin/bash
# builds gen (steered), and refdec into $1 (default /tmp/genlib); needs mkgenlib.sh first
D=${1:-/tmp/genlib}; H=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -O1 -g -Wall -DSTEERED -I$D/include -I$D/b/include/dav1d -I$D/b/include -I$H $H/gen.cpp $D/b/src/libdav1d.a -lpthread -ldl -o $D/gen &&
gcc -O2 -g -Wall $H/../ref/refdec.c -o $D/refdec -ldl
