#!/bin/bash
# Builds the real binaries from /repo's current working tree, and the shim.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/../build/ide"
cargo build --release --offline -q -p flowistry_ide -p flowistry_ifc --bins
mkdir -p "$CARGO_TARGET_DIR/ifc" "$here/../build/procsim"
rustc --edition=2024 --crate-type rlib --crate-name flowistry_ifc_traits --out-dir "$CARGO_TARGET_DIR/ifc" /repo/crates/flowistry_ifc_traits/src/lib.rs
gcc -O2 -shared -fPIC -o "$here/../build/procsim/shim.so" "$here/shim.c" -ldl -lpthread
