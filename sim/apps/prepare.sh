#!/bin/bash
# Copies the example programs' sources next to the simulator: the download client talks plain HTTP there (the
# simulated network has no TLS), everything else is as in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
repo="${1:-/repo}"
cd "$here" || exit 3
put() { mkdir -p "$(dirname "$2")"; cmp -s "$1" "$2" || cp "$1" "$2"; }
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
(cd "$repo/examples" && find scenes/src -name '*.rs') | while read -r f; do
  mkdir -p "$tmp/$(dirname "$f")"
  sed 's|https://|http://|g' "$repo/examples/$f" > "$tmp/$f"
  put "$tmp/$f" "gen/$f"
done
cat > "$tmp/scenes.toml" <<T
[package]
name = "scenes"
version = "0.0.0"
edition = "2024"
publish = false
[dependencies]
vello = { version = "0.9", default-features = false }
kurbo = "0.13"
peniko = "0.6"
velato = { path = "$repo", default-features = false, features = ["vello"] }
anyhow = "1"
clap = { version = "4.6.1", features = ["derive"] }
image = { version = "0.24.9", default-features = false }
rand = "0.8.6"
skrifa = "0.26.6"
instant = "0.1"
bytemuck = { version = "1.25.0", features = ["derive"] }
byte-unit = "4.0.19"
inquire = "0.7"
ureq = { version = "2.12.1", default-features = false }
T
put "$tmp/scenes.toml" gen/scenes/Cargo.toml
for m in stats multi_touch; do sed "s/pub(crate)/pub/g" "$repo/examples/with_winit/src/$m.rs" > "$tmp/$m.rs"; put "$tmp/$m.rs" gen/viewer/src/$m.rs; done
cat > "$tmp/lib.rs" <<T
#![allow(warnings)]
pub mod stats;
pub mod multi_touch;
T
put "$tmp/lib.rs" gen/viewer/src/lib.rs
cat > "$tmp/viewer.toml" <<T
[package]
name = "viewer"
version = "0.0.0"
edition = "2024"
publish = false
[dependencies]
vello = { version = "0.9", default-features = false }
kurbo = "0.13"
peniko = "0.6"
scenes = { path = "../scenes" }
winit = { path = "../../winit" }
T
put "$tmp/viewer.toml" gen/viewer/Cargo.toml
[ "$(readlink gen/assets)" = "$repo/examples/assets" ] || ln -sfn "$repo/examples/assets" gen/assets
