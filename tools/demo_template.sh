#!/bin/bash
# builds demo.cpp beside this script against the library in ./_build and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++20 -O0 -w -D_GLIBCXX_DEBUG -D_FILE_OFFSET_BITS=64 -DJOEDB_HAS_ASIO -DJOEDB_HAS_BOOST -DJOEDB_HAS_BROTLI -DJOEDB_HAS_CURL -DJOEDB_HAS_SSH -I"$repo/src" "$here/demo.cpp" -o "$work/demo" -L"$repo/_build" -ljoedb -Wl,-rpath,"$repo/_build" -pthread || exit 2
cd "$work" && timeout 120 ./demo
