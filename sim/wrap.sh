#!/bin/bash
# RUSTC_WRAPPER: instruments only the library under test, so that every edge, load and
# store of its code calls into the simulator (yield points, coverage).
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
if [ "$name" = material_color_utilities_rs ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module \
    -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc-guard \
    -Cllvm-args=-sanitizer-coverage-trace-loads \
    -Cllvm-args=-sanitizer-coverage-trace-stores \
    -Zcross-crate-inline-threshold=never -Ccodegen-units=4
fi
exec "$rustc" "$@"
