#!/bin/bash
# builds the harnesses once; every check rebuilds what it needs from /repo's current tree
cd "$(dirname "$0")/.." || exit 1
export CARGO_TARGET_DIR="$PWD/target" RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true RUSTFLAGS= RUSTC_WRAPPER=
for c in harness owner-harness; do (cd "$c" && cargo build --offline --quiet) || exit 1; done
