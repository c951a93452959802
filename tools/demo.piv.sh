#!/bin/bash
# Builds main.rs (beside this script) against the sshcerts tree in the current directory and runs it.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
mkdir -p "$T/src" "$T/scratch"; cp "$D"/*.rs "$T/src/"
cp "$R/Cargo.lock" "$T/" 2>/dev/null
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
sshcerts = { path = "$R", features = ["yubikey-support"] }
ring = "0.17"
base64 = "0.13"
openssl = "0.10"
X
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTFLAGS=""
cd "$T" && cargo build --offline -q 2>"$T/log" || { cat "$T/log"; exit 3; }
cd "$T/scratch" && timeout 120 "$T/target/debug/demo"
