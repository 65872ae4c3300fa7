#!/bin/bash
# exit 0: the demonstration program finds the documented behaviour
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 9
trap 'rm -rf "$out"' EXIT
gcc -g -w -O1 -fsanitize=address -fno-sanitize-recover=all -DUSE_STDLIB -I. -IDuckLib -I"$here" -o "$out/demo" "$here/demo.c" \
	duckLisp.c duckVM.c assembler.c emitters.c generators.c parser.c DuckLib/*.c -lm || exit 8
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$out/demo"
