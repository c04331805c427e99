#!/bin/bash
# run.sh FILE.rs [REPO]: runs a program against a copy of genco
repo=${2:-/repo}; w=/tmp/runrs; mkdir -p $w/src; cp "$1" $w/src/main.rs; cp $repo/Cargo.lock $w/
printf '[package]\nname="demo"\nversion="0.0.0"\nedition="2018"\n[dependencies]\ngenco={path="%s"}\n[workspace]\n' $repo > $w/Cargo.toml
cd $w && RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo run --offline --quiet
