#!/bin/bash
# build.sh <harness> <out dir> [repo]   builds the executable contracts against the sources of the repository
set -e
H=$1; O=$2; R=${3:-/repo}; D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
W="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup"
F="-g -O1 -w -std=gnu11 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=alignment,pointer-overflow,nonnull-attribute,shift-base -DWRAP -pthread -I$R/include -I$R/src -I$D"
SRC=$(sed -n 's,^// sources: ,,p' "$D/$H.c")
S=""; for f in ${SRC:-vector.c}; do S="$S $R/src/$f"; done
X=$(sed -n 's,^// flags: ,,p' "$D/$H.c")
clang $F $X -o "$O/$H" "$D/$H.c" $S $W -lm -lrt
