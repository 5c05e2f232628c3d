#!/bin/sh
# Builds and runs main.rs (beside this file) against the crates of the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src" && cp "$here/main.rs" "$w/src/main.rs" && cp "$here/Cargo.lock" "$w/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cd "$w" && CARGO_NET_OFFLINE=true cargo build -q --offline --target-dir "$w/target" 2> "$w/log" || { tail -20 "$w/log"; exit 3; }
cd "$w" && "$w/target/debug/demo"
