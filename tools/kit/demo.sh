#!/bin/bash
# exit 0: the property holds in the working tree at $PWD; nonzero: it is broken
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/kit.rs" "$here/main.rs" "$d/src/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cinereus = { path = "$repo/cinereus" }
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path "$d/Cargo.toml" >"$d/log" 2>&1 || { tail -20 "$d/log"; exit 99; }
timeout 60 "$d/target/debug/demo"
