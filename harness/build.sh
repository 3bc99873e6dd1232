#!/bin/bash
# Builds the harness against /repo's working tree.
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
unset RUSTDOCFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
cd "$(dirname "$0")" && exec cargo build --release --offline -q --target-dir ../build/harness
