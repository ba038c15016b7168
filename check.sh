#!/bin/bash
# check.sh <property> [--thorough]: rebuild the explorer from /repo's tree, explore, write evidence/<property>.json
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.95.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$PWD/target" MC_DIR="$PWD"
mkdir -p evidence target
if ! cargo build --offline --manifest-path mc/Cargo.toml >target/build.log 2>&1; then
    grep -E "^error" -A8 target/build.log | head -60
    echo "mc does not build"
    exit 2
fi
exec target/debug/mc "$@"
