#!/bin/bash
# builds all checks from the committed files and /repo's working tree
set -eu
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="${VP_TARGET:-$PWD/build}"
export CARGO_NET_OFFLINE=true
export RUSTFLAGS="--cfg vp_mc -Awarnings"
cargo build --offline --quiet --manifest-path mc/Cargo.toml --bins
