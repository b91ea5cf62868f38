#!/bin/bash
# Builds the simulator from the committed files, offline.
set -eu
cd "$(cd "$(dirname "$0")" && pwd)/sim"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR || true
mkdir -p work
cargo build --offline
