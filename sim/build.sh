#!/bin/bash
# Builds a simulator from /repo's working tree into $SIM_TARGET (default: /verif/sim/target*) and prints its path.
# usage: build.sh [vello|apps]
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="${SIM_TARGET:-$here/target${1:+-$1}}"
if [ "$1" = apps ]; then
  bash "$here/apps/prepare.sh" || exit 3
  cd "$here/apps" || exit 3
  bin=vapps
else
  cd "$here" || exit 3
  export RUSTC_WRAPPER="$here/rustc-wrap.sh"
  bin=vsim
fi
feat=""
[ "$1" = vello ] && feat="--features vello"
cargo build --offline $feat 2>"$CARGO_TARGET_DIR.log" || { tail -60 "$CARGO_TARGET_DIR.log" >&2; exit 3; }
echo "$CARGO_TARGET_DIR/debug/$bin"
