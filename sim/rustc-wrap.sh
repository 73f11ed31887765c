#!/bin/bash
# RUSTC_WRAPPER: compile the code under test (and its concurrent map) with edge callbacks, so that
# the simulator gets a scheduling point at every basic block.  Everything else is compiled plainly.
rustc="$1"; shift
name=; prev=
for a in "$@"; do
  [ "$prev" = --crate-name ] && { name=$a; break; }
  prev=$a
done
case "$name" in
  nodejs_resolver|dashmap|chores)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
      -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
esac
exec "$rustc" "$@"
