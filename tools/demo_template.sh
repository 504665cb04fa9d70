#!/bin/bash
# Builds the small program beside this script against the crates of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
lxi-device = { path = "$repo/device" }
lxi-hislip = { path = "$repo/hislip" }
lxi-socket = { path = "$repo/raw" }
lxi-telnet = { path = "$repo/telnet" }
lxi-vxi11 = { path = "$repo/vxi11" }
futures = "0.3"
async-std = { version = "1.11", features = ["attributes"] }
EOF
cd "$w" || exit 2
export CARGO_TARGET_DIR="$w/target" RUSTFLAGS=-Awarnings CARGO_NET_OFFLINE=true
cargo +stable build --offline --quiet || exit 2
timeout 60 "$w/target/debug/demo"
