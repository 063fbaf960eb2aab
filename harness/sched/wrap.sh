#!/bin/bash
# Compiler wrapper: only yamd gets the scheduling points.
rustc=$1
shift
case " $* " in
*" --crate-name yamd "*)
  exec "$rustc" "$@" -C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc \
    -C llvm-args=-sanitizer-coverage-trace-loads -C llvm-args=-sanitizer-coverage-trace-stores
  ;;
*) exec "$rustc" "$@" ;;
esac
