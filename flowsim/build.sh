#!/bin/bash
# Builds the simulator against /repo's current working tree.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
cd "$here"
export RUSTFLAGS="--cfg flowistry_sim" CARGO_TARGET_DIR="$here/../build/flowsim"
cargo build --release --offline -q "$@"
mkdir -p "$CARGO_TARGET_DIR/ifc"
unset RUSTFLAGS
rustc --edition=2024 --crate-type rlib --crate-name flowistry_ifc_traits --out-dir "$CARGO_TARGET_DIR/ifc" /repo/crates/flowistry_ifc_traits/src/lib.rs
