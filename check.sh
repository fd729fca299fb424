#!/bin/bash
# Builds the simulator from /repo's working tree and searches for violations of one property.
# usage: check.sh PROPERTY quick|thorough
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 3
prop="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
feat=""
secs=35
case "$prop" in
  C18) feat=vello ;;
  C21|C22|C23|C24|C25) feat=apps; secs=12 ;;
esac
bin="$(bash sim/build.sh $feat)" || { echo "build failed" >&2; exit 3; }
runs=100000000
if [ "$tier" = thorough ]; then secs=600; fi
exec "$bin" check --prop "$prop" --tier "$tier" --seed "${VERIF_SEED:-1}" --runs "${RUNS:-$runs}" --secs "${SECS:-$secs}" \
  --out out --evidence "evidence/$prop.json" --regress regress --known known-findings.json --shrink-secs 25
