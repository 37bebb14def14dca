#!/bin/bash
# Checks the tools and builds the driver once (each check rebuilds what it needs).
set -e
cd "$(dirname "$0")"
java -version 2>&1 | head -1
export CARGO_NET_OFFLINE=true RUSTFLAGS="$RUSTFLAGS -Awarnings"
CARGO_TARGET_DIR=.build/harness cargo build --offline --quiet --manifest-path harness/Cargo.toml
CARGO_TARGET_DIR=.build/harness-web cargo build --offline --quiet --features web --manifest-path harness/Cargo.toml
RUSTFLAGS="$RUSTFLAGS --cfg zippity_verif" CARGO_TARGET_DIR=.build/harness-sources cargo build --offline --quiet --features sources --manifest-path harness/Cargo.toml
echo "setup done"
