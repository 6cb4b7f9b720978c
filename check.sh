#!/bin/bash
# usage: check.sh ID   Builds the simulator against /repo as it is now and decides one property.
cd "$(dirname "$0")" || exit 2
mkdir -p /verif/target
if ! ./sim/build.sh >/verif/target/build.log 2>&1; then
  echo "HARNESS-ERROR build failed"
  tail -40 /verif/target/build.log
  exit 2
fi
exec /verif/target/x86_64-unknown-linux-gnu/debug/ksim check "$1"
