#!/bin/bash
# Validates harness/peg/peglib.h (the stand-in for cpp-peglib): compiles the repository's own tests that need it, which
# its build leaves out here, and runs them. usage: tools/pegcheck.sh [repository]
repo=${1:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
out=$(mktemp -d) || exit 2
trap 'rm -rf -- "$out"' EXIT
cp -r "$repo/test/unitary/idl" "$out/idl"
cd "$out" || exit 2
rc=0
for t in parser/parser_test parser/roundtrip generator/dependencies; do
    g++ -std=c++17 -w -O0 -g -DXTYPES_EXCEPTIONS -fsanitize=address,undefined -fno-sanitize=alignment -I "$here/harness/peg" -I "$repo/include" "$repo/test/unitary/$t.cpp" -o t -lgtest -lgtest_main -lpthread || { rc=1; continue; }
    ASAN_OPTIONS=detect_leaks=0 ./t || rc=1
done
exit $rc
