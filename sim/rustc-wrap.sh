#!/bin/sh
# Cargo calls this as: rustc-wrap.sh <rustc> <args...>
# Adds basic-block callbacks to everything built for the target except the
# simulator runtime itself (and build scripts / proc macros, built for the host).
rustc="$1"; shift
name=""; target=""; prev=""; mem=""
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name="$a"
  [ "$a" = "--target" ] && target=1
  prev="$a"
done
if [ -n "$target" ] && [ -n "$name" ] && [ "$name" != "simrt" ] && [ "$name" != "___" ]; then
  # the library's own loads and stores, too: those of statics are where tasks may be stopped
  [ "$name" = "kserd" ] && mem="-Cllvm-args=-sanitizer-coverage-trace-loads -Cllvm-args=-sanitizer-coverage-trace-stores"
  exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard $mem
fi
exec "$rustc" "$@"
