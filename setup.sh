#!/bin/bash
# Builds the simulator once, so that checks only rebuild what changed.
cd "$(dirname "$0")" && mkdir -p evidence replays && sim/build.sh
