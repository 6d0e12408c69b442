#!/bin/bash
# Builds the demonstration beside this script against the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= RUST_BACKTRACE=0 CARGO_TARGET_DIR=${DEMO_TARGET:-$d/target}
unset RUSTFLAGS
mkdir -p "$d/demo/src" "$d/tmp"
cp "$here/demo.rs" "$d/demo/src/main.rs"
cp "$repo/Cargo.lock" "$d/demo/Cargo.lock"
cat > "$d/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
trane = { path = "$repo" }
anyhow = "1"
chrono = "0.4"
parking_lot = "0.12"
rusqlite = { version = "0.40", features = ["bundled"] }
serde_json = "1"
tempfile = "3"
ustr = "1"
T
[ -n "$DEMO_TARGET" ] && touch "$repo/src/lib.rs"
cargo build -q --offline --manifest-path "$d/demo/Cargo.toml" || exit 3
TMPDIR="$d/tmp" timeout 120 "$CARGO_TARGET_DIR/debug/demo"
