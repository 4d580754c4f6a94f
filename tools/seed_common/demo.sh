#!/bin/bash
# run with cwd at the built repository; exit 0: behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
B=$PWD/_build/src
L="$B/brski/registrar/libregistrar_api.a $B/brski/masa/libmasa_api.a $B/brski/pledge/libpledge_request.a $B/brski/pledge/libpledge_utils.a $B/brski/http/libhttps_client.a $B/brski/http/libhttps_server.a $B/brski/http/libhttplib_wrapper.a"
objs=$(find "$B" -name '*.o' ! -name 'brski.cpp.o')
g++ -std=gnu++17 -w -I"$PWD/src" -I"$PWD/_build" -DWITH_CPPHTTPLIB_LIB "$here/demo.cpp" $objs -o "$t/demo" $LINK -lminIni -lssl -lcrypto -lpthread || exit 3
cd "$t" && timeout 120 ./demo >"$t/out" 2>&1
r=$?
tail -5 "$t/out"
exit $r
