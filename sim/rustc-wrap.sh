#!/bin/sh
# Cargo calls: rustc-wrap.sh <rustc> <args...>. Only the library under test gets basic-block callbacks.
for a in "$@"; do
  if [ "$prev" = "--crate-name" ] && [ "$a" = "rusty_git" ]; then
    exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=2 -Cllvm-args=-sanitizer-coverage-trace-pc-guard
  fi
  prev="$a"
done
exec "$@"
