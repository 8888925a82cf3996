#!/bin/bash
# Builds demo.cc against the sources in the current directory (a checkout of the repository) and runs it.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
SRCS=$(find src/pymatching -name '*.cc' ! -name '*.test.cc' ! -name '*.perf.cc' ! -name '*.pybind.cc' ! -name 'namespaced_main.cc' ! -path '*/diagram/*' ! -path '*/perf/*')
i=0
for f in $SRCS "$D/demo.cc"; do
    i=$((i + 1))
    g++ -std=c++20 -O1 -g1 ${DEMO_FLAGS:-} -w -I"$D" -Isrc -c "$f" -o "$T/$i.o" || { touch "$T/failed"; } &
done
wait
[ -e "$T/failed" ] && { echo "build failed"; exit 2; }
g++ ${DEMO_FLAGS:-} "$T"/*.o -o "$T/demo" || exit 2
timeout 60 "$T/demo"
rc=$?
echo "demo exit $rc"
[ $rc -eq 0 ] || exit 1
