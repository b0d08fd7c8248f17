#!/bin/bash
# Builds demo.cpp against the library built in the current directory and runs it.
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d) || exit 2
trap 'rm -rf "$o"' EXIT
g++ -std=c++17 -O1 -DBOOST_ALL_DYN_LINK=1 -Iinclude -Isrc -I"$d" "$d/demo.cpp" -o "$o/demo" \
    _build/output/relwithdebinfo/lib/libcosim.a -Wl,--unresolved-symbols=ignore-all \
    -lboost_log -lboost_thread -lboost_filesystem -lboost_date_time -lboost_chrono \
    -lboost_regex -lboost_atomic -lyaml-cpp -lxerces-c -lzip -lpthread -ldl || exit 2
mkdir "$o/scratch" && cd "$o/scratch" || exit 2
timeout 120 "$o/demo"
