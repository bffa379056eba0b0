#!/bin/bash
# check.sh ID quick|thorough: rebuild the harness against the working tree of /repo and decide one property.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUSTFLAGS= MC_VERIF="$(cd "$(dirname "$0")" && pwd)"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
cd "$MC_VERIF" || exit 2
bash build.sh || exit 2
exec harness/target/release/mc check "$1" "$2"
