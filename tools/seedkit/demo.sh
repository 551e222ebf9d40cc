#!/bin/sh
# Builds main.rs beside this file against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$here/demo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
mixed-num = { path = "$repo" }
fixed = "1.13"
cordic = "0.1"
libm = "0.2"
[dependencies.num]
version = "0.4"
default-features = false
[workspace]
[profile.dev]
debug = 0
incremental = false
T
cd "$d" && CARGO_TARGET_DIR="$d/t" RUSTFLAGS=-Awarnings timeout 250 cargo run --offline -q
rc=$?
rm -rf "$d"
exit $rc
