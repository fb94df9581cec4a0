#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds the simulator from /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
mkdir -p evidence replays
log=$(mktemp /tmp/weedle-sim-build.XXXXXX)
( flock 9; sim/build.sh ) 9>/tmp/weedle-sim-build.lock >"$log" 2>&1 || { cat "$log" >&2; rm -f "$log"; echo "build failed" >&2; exit 2; }
rm -f "$log"
exec sim/target/debug/weedle-sim check "$id" --root "$PWD"
