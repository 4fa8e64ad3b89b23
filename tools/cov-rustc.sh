#!/bin/bash
# RUSTC_WRAPPER of the dev build: adds sancov coverage callbacks to the library and the harness.
rustc=$1; shift
case " $* " in
  *" --crate-name sia "*|*" --crate-name vh "*)
    exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 \
      -C llvm-args=-sanitizer-coverage-trace-pc-guard -C llvm-args=-sanitizer-coverage-trace-compares ;;
esac
exec "$rustc" "$@"
