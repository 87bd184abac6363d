#!/bin/bash
# build.sh HARNESS.cpp OUTDIR : instrumented symbolic build
set -euo pipefail
E=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$E"); R=${REPO:-/repo}; B=${SXBUILD:-/tmp/symx-build}
ZI=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
mkdir -p "$2"
INC="-iquote $R/include/albatross -I$R/include -isystem /usr/include/eigen3 -I$E -I$V/stubs -DCEREAL_THREAD_SAFE=1 -DSYMX"
clang++-18 -std=c++17 -O1 -fno-vectorize -fno-slp-vectorize -ffp-contract=off -DEIGEN_DONT_VECTORIZE -D_GLIBCXX_ASSERTIONS -w ${SXFLAGS:-} $INC -c -emit-llvm "$1" -o "$2/h.bc"
"$B/sxinst" "$2/h.bc" "$2/i.bc"
clang++-18 -O1 -w -fno-vectorize -fno-slp-vectorize -c "$2/i.bc" -o "$2/i.o"
g++ -o "$2/sym" "$B/rt.o" "$2/i.o" -L$ZI/lib -Wl,-rpath,$ZI/lib -l:libz3.so.5.3 -lgmpxx -lgmp ${SXLIBS:-} -lpthread
