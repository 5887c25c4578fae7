#!/bin/bash
# Builds the simulator together with dyon from /repo's working tree. If dyon's HTTP part does not build against the
# simulated transport, everything else is built without it (and C16 gives no answer).
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_TARGET_DIR="$PWD/../target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTFLAGS="-Awarnings"
cargo build -q --offline 1>&2 || { echo "retrying without http" >&2; cargo build -q --offline --no-default-features 1>&2 || exit 2; }
