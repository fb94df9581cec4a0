#!/bin/bash
# replay.sh FILE: rebuilds from /repo's working tree and runs exactly the execution written in a replay file.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
sim/build.sh >/dev/null 2>&1 || { echo "build failed" >&2; exit 2; }
exec sim/target/debug/weedle-sim replay "$f"
