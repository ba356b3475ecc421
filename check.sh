#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]. Builds the simulator against the
# current /repo and decides one property. Exit 0 held, 1 violated, 2 error.
here=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT="$here" CARGO_TARGET_DIR="$here/sim/target" CARGO_NET_OFFLINE=true
tier=${2:-${VERIF_TIER:-quick}}
log=$(mktemp)
if ! (cd "$here/sim" && cargo build --release --offline --locked) >"$log" 2>&1; then
    cat "$log" >&2
    rm -f "$log"
    echo "$1: the simulator does not build against /repo" >&2
    exit 2
fi
rm -f "$log"
exec "$here/sim/target/release/sim" check prop="$1" tier="$tier" seed="${VERIF_SEED:-1}"
