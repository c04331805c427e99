#!/bin/bash
# Builds main.rs against the genco in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export HOME=/root PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR="$work/target"
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"

[dependencies]
genco = { path = "$repo" }

[workspace]
EOF
cd "$work" || exit 2
cargo run --offline --quiet
