#!/bin/sh
# build.sh OUT [REPO]: the real sources with sanitizers
R=${2:-/repo}; H=$(cd "$(dirname "$0")" && pwd)
exec gcc -g -O1 -w -DUSE_CLEANUP_CUSTOM_DATATYPES=1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I"$H" -I"$H/../stub" -I$R/include -I$R/src -I$R/backends/open62541/include -I$R/backends/open62541/src -I/usr/include/libxml2 "$H/dump.c" "$H/ua_native.c" $R/src/*.c $R/src/nodes/*.c $R/backends/open62541/src/*.c -lxml2 -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -o "$1"
