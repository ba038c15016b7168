#!/bin/bash
# Builds main.rs (beside this script) against the crate in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null || true
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[features]
default = ["std"]
std = []
[workspace]
[dependencies]
asn1-rs = { path = "$repo", $(cat "$here/features" 2>/dev/null || echo "features = [\"bigint\", \"datetime\", \"serialize\"]") }
nom = { version = "8", default-features = false }
T
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.95.0}" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${DEMO_TARGET:-$work/target}"
unset RUSTFLAGS
cd "$work"
cargo build --offline -q 2>&1 | grep -E '^error' -A8 || true
ulimit -c 0
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
