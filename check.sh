#!/bin/bash
# check.sh <property> [quick|thorough]: builds dyon from /repo's working tree into the simulator and decides one property.
cd "$(dirname "$0")" || exit 2
export DYONSIM_VERIF="$PWD"
tier="${2:-${VERIF_TIER:-quick}}"
./build.sh || { echo "build failed" >&2; exit 2; }
exec ./target/debug/dyonsim check "$1" "$tier"
