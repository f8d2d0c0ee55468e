#!/bin/bash
# compiles demo.rs against the jbcrs in the working directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cat "$here/mini.rs" "$here/demo.rs" > "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
jbcrs = { path = "$repo" }
T
cd "$tmp" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$tmp/target" RUSTC_WRAPPER= RUSTFLAGS=-Awarnings
cargo build --offline > log 2>&1 || { tail -30 log; exit 3; }
timeout 200 target/debug/demo
