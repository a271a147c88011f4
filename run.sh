#!/bin/bash
# usage: run.sh <property> [quick|thorough]
# Builds the harness against /repo's working tree and runs one check.
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF_DIR" || exit 2
export CARGO_TARGET_DIR="$VERIF_DIR/target"
export CARGO_NET_OFFLINE=true
TIER="${2:-${VERIF_TIER:-quick}}"
LOG="$VERIF_DIR/logs"; mkdir -p "$LOG"
if ! (cd harness && cargo build --offline -q) >"$LOG/build.$$" 2>&1; then
  cat "$LOG/build.$$"; rm -f "$LOG/build.$$"
  echo "ERROR: build failed"; exit 2
fi
rm -f "$LOG/build.$$"
exec "$CARGO_TARGET_DIR/debug/odsv" check "$1" "$TIER"
