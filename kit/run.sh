# Builds the application in the current directory on the simulated device with this folder's demo.c and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
set -e
clang-18 -std=gnu11 -g -O1 -w -funsigned-char -fshort-enums -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment,function \
  -include stdio.h -include "$D/sdk/include/stub_common.h" -I"$D" -I"$D/sdk/include" -Isrc \
  $(find src -name '*.c' | sort) "$D"/sdk/src/*.c "$D/sim.c" "$D/demo.c" -o "$T/demo"
ASAN_OPTIONS=detect_leaks=0 "$T/demo"
