#!/bin/bash
# Compiles the code under test with LLVM's edge callbacks: every basic-block edge becomes a
# simulated clock tick and a possible preemption point.
rustc="$1"; shift
case " $* " in
*" --crate-name velato "*|*" --crate-name subject "*)
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard;;
esac
exec "$rustc" "$@"
