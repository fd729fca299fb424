#!/bin/bash
# Renders compositions made by hand with the tree in the current directory and compares with expected.txt.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
cp "$here"/main.rs "$here"/Cargo.lock "$tmp"/
sed "s|@REPO@|$repo|" "$here/Cargo.toml" > "$tmp/Cargo.toml"
CARGO_TARGET_DIR="$tmp/target" cargo build --offline --manifest-path "$tmp/Cargo.toml" >"$tmp/log" 2>&1 || { cat "$tmp/log"; exit 2; }
timeout 60 "$tmp/target/debug/demo" > "$tmp/got.txt" 2>/dev/null
code=$?
[ "$1" = print ] && { cat "$tmp/got.txt"; exit 0; }
[ $code = 0 ] || { echo "ended with status $code"; exit 1; }
diff "$here/expected.txt" "$tmp/got.txt"
