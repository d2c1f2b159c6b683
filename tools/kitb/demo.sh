#!/bin/bash
# exit 0: the property holds in the working tree at $PWD; nonzero: it is broken.
# hotmeal's own dependencies are not installed; kit.tar holds stand-ins for them.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
tar -xf "$here/kit.tar" -C "$d" || exit 98
grep -rl '@REPO@' "$d" | xargs sed -i "s#@REPO@#$repo#g"
cp "$here/kit.rs" "$here/main.rs" "$d/demo/src/"
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet --manifest-path "$d/demo/Cargo.toml" >"$d/log" 2>&1 || { grep -A8 '^error' "$d/log" | head -40; exit 99; }
timeout 60 "$d/target/debug/demo"
