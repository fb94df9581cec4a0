#!/bin/bash
# Builds the simulator with the system under test from /repo's working tree.
set -e
cd "$(dirname "$0")"
export PATH="/usr/local/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh"
export CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS RUSTDOCFLAGS CARGO_ENCODED_RUSTFLAGS
exec cargo build --offline "$@"
