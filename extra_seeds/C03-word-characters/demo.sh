#!/bin/bash
# Builds demo.rs against the crate in the working directory and runs it:
# exit 0 if the property holds in the case it shows, nonzero otherwise.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=0
export RUSTFLAGS='-Awarnings'
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 99
trap 'rm -rf "$work"' EXIT
mkdir "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cathlamet = { path = "$repo" }

[workspace]
T
cd "$work" || exit 99
export CARGO_TARGET_DIR=$work/target
cargo build --offline -q || exit 98
timeout 120 "$work/target/debug/demo"
