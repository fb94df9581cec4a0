#!/bin/bash
# RUSTC_WRAPPER: compiles the system under test (weedle, its parser-combinator dependency nom, and the thin crate of
# call sites) with a callback at every basic block, load and store; compiles the simulator runtime with the unstable
# library features it needs. Everything else is compiled as usual.
rustc="$1"; shift
name=""; prev=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  prev="$a"
done
case "$name" in
  weedle|nom|calls)
    exec "$rustc" "$@" -C codegen-units=1 -C embed-bitcode=no -C lto=off -C passes=sancov-module \
      -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard \
      -C llvm-args=-sanitizer-coverage-pc-table \
      -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores ;;
  simrt)
    RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" ;;
  *)
    exec "$rustc" "$@" ;;
esac
