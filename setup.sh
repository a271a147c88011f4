#!/bin/bash
# Builds the harness once, offline, from the committed files.
cd "$(dirname "$0")" || exit 2
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
mkdir -p evidence logs replays
cd harness && cargo build --offline
