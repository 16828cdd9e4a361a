#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
D=$(mktemp -d /tmp/halo-demo.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
mkdir -p "$D/src"
cp "$HERE"/*.rs "$D/src/" && mv "$D/src/demo.rs" "$D/src/main.rs" || exit 2
[ -f "$REPO/Cargo.lock" ] && cp "$REPO/Cargo.lock" "$D/Cargo.lock"
cat > "$D/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
halo = { path = "$REPO" }
subtle = "*"
rand_core = "0.5"
[profile.dev]
opt-level = 1
debug = false
[workspace]
T
export CARGO_TARGET_DIR="$D/target"
cargo build -q --offline --manifest-path "$D/Cargo.toml" 2> "$D/log" || { tail -30 "$D/log"; exit 2; }
timeout 250 "$D/target/debug/demo"
