#!/bin/bash
# builds main.rs beside this script against /repo's crates, in a scratch directory, and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here"/*.rs "$w/src/"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cd "$w"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TARGET_DIR="$w/target"
cargo build --offline -q 2>"$w/log" || { cat "$w/log"; exit 9; }
timeout 60 "$w/target/debug/demo"
