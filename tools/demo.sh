#!/bin/bash
# exit 0: the property holds; non-zero: broken. Run in /repo after the build.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
export DSTU_SO=$PWD/_build/engine/dstu.so
gcc -g -w $(cat "$d/flags" 2>/dev/null) -I"$d" -I"$PWD" -I"$PWD/keylib" "$d/demo.c" -o "$t/demo" -L"$PWD/_build/keylib" -lkeylib -Wl,-rpath,"$PWD/_build/keylib" -lcrypto -lpthread || exit 98
cd "$t" && timeout 120 "$t/demo" "$OLDPWD"
