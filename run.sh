#!/bin/bash
# usage: run.sh <property>     (VERIF_SEED, VERIF_TIER=quick|thorough)
# Builds the monitor against /repo's working tree and runs one check.
cd "$(dirname "$0")/harness" || exit 2
export VERIF_DIR="$(cd .. && pwd)" CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "ERROR (no verdict): the monitor does not build against /repo"
  exit 2
fi
rm -f "$log"
exec target/release/monitor run "$1"
