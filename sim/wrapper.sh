#!/bin/bash
# RUSTC_WRAPPER of the instrumented build: adds SanitizerCoverage callbacks (one
# per basic block, load and store) to the crate under test and nothing else.
prev=
for a in "$@"; do
  if [ "$prev" = --crate-name ] && [ "$a" = dumb_crypto ]; then
    exec "$@" -C embed-bitcode=no -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-trace-loads \
      -C llvm-args=-sanitizer-coverage-trace-stores
  fi
  prev=$a
done
exec "$@"
