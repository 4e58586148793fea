#!/bin/bash
# Build the harness against /repo's current working tree. Sourced or run.
export RUSTUP_TOOLCHAIN=${KV_TOOLCHAIN:-stable} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=${KV_TARGET:-/verif/target}
unset RUSTC_WRAPPER
export RUSTFLAGS="${RUSTFLAGS:-} -Awarnings"
cd /verif/harness && exec cargo build --offline -q "$@"
