#!/bin/bash
# bash pack.sh OUT.tar: the stand-ins a demonstration needs
set -e
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
mkdir -p "$t/worldb" "$t/demo/src"
cp -a /verif/simcore "$t/simcore"; cp -a /verif/worldb/stubs /verif/worldb/shims "$t/worldb/"
rm -rf "$t"/simcore/target
grep -rl '/repo/' "$t" --include=Cargo.toml | xargs sed -i 's#/repo/#@REPO@/#g'
cat > "$t/demo/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
simcore = { path = "../simcore" }
simrt = { path = "../worldb/stubs/simrt" }
facet = { path = "../worldb/stubs/facet" }
facet-postcard = { path = "../worldb/stubs/facet-postcard" }
web-sys = { path = "../worldb/stubs/web-sys" }
roam = { path = "../worldb/stubs/roam" }
roam-websocket = { path = "../worldb/stubs/roam-websocket" }
roam-session = { path = "../worldb/stubs/roam-session" }
hotmeal = { path = "../worldb/shims/hotmeal" }
hotmeal-server = { path = "../worldb/shims/hotmeal-server", features = ["roam"] }
hotmeal-wasm = { path = "../worldb/shims/hotmeal-wasm" }
T
tar --sort=name --mtime=@0 --owner=0 --group=0 -cf "$1" -C "$t" simcore worldb demo
