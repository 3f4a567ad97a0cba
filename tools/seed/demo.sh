#!/bin/sh
# run in the root of the repository after the build: exit 0 if the behaviour is
# as specified; compiles the library sources with sanitizers and a driver
H=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -DUSE_CLEANUP_CUSTOM_DATATYPES=1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -I"$H" -I"$H/stub" -I$R/include -I$R/src -I$R/backends/open62541/include -I$R/backends/open62541/src -I/usr/include/libxml2 "$H/dump.c" "$H/ua_native.c" $R/src/*.c $R/src/nodes/*.c $R/backends/open62541/src/*.c -lxml2 -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free -o "$T/dump" || exit 2
cp "$H"/in* "$T"/ 2>/dev/null
cd "$T" || exit 2
export ASAN_OPTIONS=detect_leaks=0:exitcode=99:allocator_may_return_null=1
timeout 60 "$T/dump" "$T/out" @ARGS@ >"$T/log" 2>"$T/err"
rc=$?
if [ $rc -ne 0 ]; then head -20 "$T/err"; echo "driver ended with $rc"; exit 1; fi
python3 "$H/check.py" "$T/out" "$H/expected.json" $1 || exit 1
