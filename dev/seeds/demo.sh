#!/bin/bash
# Builds main.rs against the crate in the current directory, in a scratch directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf -- "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mvdparser = { path = "$repo" }
[workspace]
T
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cd "$t" || exit 2
unset RUSTC_WRAPPER RUSTFLAGS CARGO_TARGET_DIR
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0
cargo run --offline -q
