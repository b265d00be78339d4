#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
repo=$PWD
gcc -g -std=gnu11 -w  -I "$repo/lib/src" -o "$t/demo" "$here/demo.c" "$repo/lib/src/.libs/libcypher-parser.a" -lm || exit 3
cd "$t" && REPO="$repo" timeout 120 ./demo
