#!/bin/bash
# build.sh BUILD_DIR [cmake args] -- TARGET...   : builds harness targets from /repo's working tree
set -e
B=$1; shift
ARGS=()
while [ $# -gt 0 ] && [ "$1" != "--" ]; do ARGS+=("$1"); shift; done
shift
mkdir -p "$B"
exec 9> "$B/.lock"; flock 9
/usr/bin/python3 /opt/vp/cmake/overlay.py /repo "$B/overlay" > "$B/overlay.log" 2>&1 || { cat "$B/overlay.log"; exit 3; }
export CC=/usr/bin/clang-18 CXX=/usr/bin/clang++-18
[ -f "$B/build.ninja" ] || cmake -G Ninja -S "$(dirname "$0")/../harness" -B "$B" -DCMAKE_BUILD_TYPE=Debug "${ARGS[@]}" > "$B/cmake.log" 2>&1 || { cat "$B/cmake.log"; rm -f "$B/build.ninja"; exit 3; }
ninja -C "$B" "$@" > "$B/ninja.log" 2>&1 || { tail -50 "$B/ninja.log"; exit 3; }
