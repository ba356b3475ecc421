#!/bin/bash
# Builds the simulator against /repo (offline).
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
cd "$here/sim" && exec cargo build --release --offline --locked
