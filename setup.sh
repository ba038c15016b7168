#!/bin/bash
# builds the explorer once; every check rebuilds what changed
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.95.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$PWD/target"
mkdir -p evidence target
cargo build --offline --manifest-path mc/Cargo.toml || exit 2
# the builds of the crate with other features (C20), the dependencies of the generated programs (C23)
MC_DIR="$PWD" target/debug/mc prebuild
