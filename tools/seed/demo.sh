#!/bin/bash
# builds the demonstration against the headers in the current directory (/repo) and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
FLAGS="@FLAGS@"
${CXX:-g++} -std=c++17 -O1 -w -I"$D/stubs" -iquote include/albatross -Iinclude -isystem /usr/include/eigen3 -DCEREAL_THREAD_SAFE=1 $FLAGS "$D/demo.cpp" -o "$T/demo" -lpthread @LIBS@ || exit 2
timeout 120 "$T/demo"
