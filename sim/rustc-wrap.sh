#!/bin/sh
# RUSTC_WRAPPER: compiles the system under test (and the shim crate that
# instantiates its generics) with coverage callbacks, the simulator's
# preemption points. Everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  if [ "$prev" = "--crate-name" ]; then name="$a"; fi
  prev="$a"
done
case "$name" in
  jpeg_decoder|sut)
    exec "$rustc" "$@" -C embed-bitcode=no -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-pc-table ;;
  *) exec "$rustc" "$@" ;;
esac
