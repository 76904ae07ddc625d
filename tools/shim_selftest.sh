#!/bin/bash
# Validates the stand-ins: compiles google/ink's own unit tests against /verif/shim
# (plus /verif/testshim for the fuzztest/hash/status test helpers) and runs them.
# Usage: tools/shim_selftest.sh [gtest filter]   Output dir: $OUT (default /tmp/ink_selftest)
V=$(cd "$(dirname "$0")/.." && pwd); R=${INK_REPO:-/repo}; OUT=${OUT:-/tmp/ink_selftest}
mkdir -p "$OUT"; cd "$R" || exit 2
find ink/types ink/color ink/geometry ink/brush ink/strokes ink/rendering -name '*.cc' | grep -v -e jni -e benchmark -e skia/native > "$OUT/list"
# A file is recompiled when any repo header or the file itself is newer than its object.
newest=$(find ink "$V/shim" "$V/testshim" -name '*.h' -printf '%T@\n' | sort -n | tail -1)
comp() { f=$1; o=$2/$(echo "$f" | tr / _).o
  if [ -e "$o" ] && [ "$(stat -c %Y "$o")" -gt "${3%.*}" ] && [ "$o" -nt "$f" ]; then return; fi
  g++ -include "$V/shim/prelude.h" -DSHIM_CHECK_ABORTS -std=c++20 -O0 -w -I"$V/testshim" -I"$V/shim" -I"$R" -c "$f" -o "$o" 2> "$o.err" || { rm -f "$o"; echo "no compile: $f"; }; }
export -f comp; export V R
xargs -a "$OUT/list" -P 8 -I{} bash -c "comp {} $OUT $newest"
g++ "$OUT"/*.o -o "$OUT/all_tests" -lgtest_main -lgmock -lgtest -labsl_time -labsl_strings -labsl_time_zone -labsl_throw_delegate -lpthread || exit 2
"$OUT/all_tests" --gtest_filter="${1:-*}" > "$OUT/log" 2>&1
grep -a -c '^\[       OK' "$OUT/log"; grep -a '^\[  FAILED  \] [A-Z]' "$OUT/log" | sort -u | cut -c1-120
