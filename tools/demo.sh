#!/bin/bash
# run with the repository as working directory, after a build; exit 0 iff the demonstrated guarantee holds
set -eu
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -r -- "$t"' EXIT
gcc -std=gnu11 -O1 -fno-builtin -D__STDC_WANT_DEC_FP__ -D__STDC_WANT_IEC_60559_DFP_EXT__ -D_GNU_SOURCE -I"$PWD/dfp" "$here/demo.c" -o "$t/demo" -L"$PWD/_build" -Wl,--no-as-needed -ldfp -lm -lpthread -Wl,-rpath,"$PWD/_build"
"$t/demo"
