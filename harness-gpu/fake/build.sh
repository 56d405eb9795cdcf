#!/bin/bash
# usage: build.sh <dir>: builds libcuda.so and libcublas.so stand-ins there
cd "$(dirname "$0")" || exit 1
mkdir -p "$1" && gcc -w -O1 -fno-builtin -shared -fPIC -o "$1/libcuda.so" cuda.c -lpthread && gcc -w -O1 -fno-builtin -shared -fPIC -o "$1/libcublas.so" cublas.c -L"$1" -lcuda -Wl,-rpath,'$ORIGIN'
