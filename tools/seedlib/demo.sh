#!/bin/bash
# Builds demo.rs against the crate in the current folder and runs it. Exit 0: the property holds on it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/ozzdemo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/h.rs" "$t/src/h.rs"
cp "$repo/rust-toolchain" "$repo/Cargo.lock" "$t/"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ozz-animation-rs = { path = "$repo" }
glam = { version = "0.29", features = ["core-simd", "libm"] }
rkyv = "0.7"
glam-ext = "0.2"
serde_json = "1.0"
[profile.dev]
opt-level = 1
T
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export RUST_BACKTRACE=0 RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-nightly-2025-12-01} CARGO_NET_OFFLINE=true
cd "$t" && CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings cargo run -q --offline
