#!/bin/bash
# replay.sh FILE: run the input of a reported violation again, without the explorer.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTFLAGS=
export MC_VERIF="$(cd "$(dirname "$0")" && pwd)"
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_INCREMENTAL
file=$(realpath "$1")
cd "$MC_VERIF" && bash build.sh && exec harness/target/release/mc replay "$file"
