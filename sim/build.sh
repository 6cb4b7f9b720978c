#!/bin/bash
# Builds the simulator against /repo's working tree. Output: /verif/target/.../ksim
set -e
cd "$(dirname "$0")"
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" RUSTFLAGS="-Awarnings"
cargo build --offline --locked -q --target x86_64-unknown-linux-gnu "$@"
