#!/bin/bash
# replay.sh <file> [-v]: re-executes a replay file against /repo's working tree.
cd "$(dirname "$0")" || exit 2
./build.sh || exit 2
exec ./target/debug/dyonsim replay "$@"
