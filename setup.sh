#!/bin/bash
# Builds the extractor and the harness dependencies. Offline.
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR RUSTC_WRAPPER
(cd tools/vx && cargo build --offline --quiet) || exit 1
(cd harness && RUSTFLAGS="--cfg zuban_verif -Awarnings" cargo build --offline --quiet) || exit 1
mkdir -p build evidence out
echo setup done
