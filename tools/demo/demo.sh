#!/bin/bash
# Builds the small program beside this file against the crate in the current
# directory and runs it: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUST_BACKTRACE=0
unset RUSTFLAGS RUSTC_WRAPPER LD_LIBRARY_PATH
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$repo/Cargo.lock" "$tmp/Cargo.lock" 2>/dev/null
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
json-ld = { path = "$repo" @FEATURES@ }
json-ld-core = { path = "$repo/crates/core" }
iref = "3.1.2"
rdf-types = "0.22"
contextual = "0.1.4"
json-syntax = "0.12"
futures = "0.3"
@DEPS@
[profile.dev]
debug = 0
T
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$tmp/target}
cd "$tmp" || exit 2
cargo build --offline >"$tmp/build.log" 2>&1 || { tail -30 "$tmp/build.log"; exit 2; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
