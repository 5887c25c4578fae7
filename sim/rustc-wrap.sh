#!/bin/bash
# RUSTC_WRAPPER: adds basic-block scheduling points (LLVM SanitizerCoverage, a stable codegen option) to the
# crate under test only. Everything else is compiled as is.
rustc="$1"; shift
prev=""; name=""
for a in "$@"; do [ "$prev" = "--crate-name" ] && name="$a"; prev="$a"; done
if [ "$name" = dyon ]; then
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
fi
exec "$rustc" "$@"
