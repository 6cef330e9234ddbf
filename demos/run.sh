#!/bin/bash
# run.sh DEMO.cpp [REPO]: build one demonstration against a tree (default /repo) and run it
here=$(cd "$(dirname "$0")" && pwd); R=${2:-/repo}; t=$(mktemp -d)
g++ -std=gnu++20 -w -DAWL_INT_128 -I$R -I$R/Platforms/Posix "$here/$1" $R/Awl/Io/AtomicStorage.cpp $R/Awl/Io/OptionalStorage.cpp -o $t/d -lpthread $CXXEXTRA && timeout 60 $t/d; rc=$?; rm -rf "$t"; exit $rc
