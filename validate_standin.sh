#!/bin/bash
# Compiles the repository's own test suite against the craftpp stand-in and
# runs it (development aid, not a check). Test files that no longer belong to
# the build (CMakeLists.txt does not list them) are left out.
set -u
REPO=${VERIF_REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -r "$W"' EXIT
export W REPO HERE
export F="-std=c++20 -O0 -fsanitize=address,undefined -fno-sanitize-recover=all -I$REPO/src -I$REPO/tests -I$HERE/standin -I/usr/src/googletest/googletest/include -Wno-dangling-reference"
one() { o=$W/$(echo "$1" | tr / _).o; g++ $F -c "$1" -o "$o" 2>"$o.err" || { echo "does not compile: $1: $(grep -m1 error: "$o.err")"; rm -f "$o"; }; }
export -f one
{ find "$REPO/src" -name '*.cpp'; sed -n 's/^ *\([a-z_]*_tests\.cpp\)$/\1/p' "$REPO/tests/CMakeLists.txt" | sed "s,^,$REPO/tests/,"; } | xargs -P8 -I{} bash -c 'one {}'
g++ -fsanitize=address,undefined "$W"/*_tests.cpp.o $(ls "$W"/*.o | grep -v _tests.cpp.o) \
    "$REPO"/_build/lib/libgtest.a "$REPO"/_build/lib/libgtest_main.a -lcrypto -lpthread -o "$W/t" 2>&1 | tail -20
ASAN_OPTIONS=detect_leaks=0 "$W/t" 2>&1 | tail -${LINES_OUT:-15}
