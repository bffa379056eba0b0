#!/bin/bash
# Build the harness once, so that the first check does not have to.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
cd "$(dirname "$0")" && mkdir -p evidence run && bash build.sh
