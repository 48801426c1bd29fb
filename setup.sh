#!/bin/bash
# builds the extractor and the harness offline (every check rebuilds what it needs anyway)
cd "$(dirname "$0")" || exit 1
CARGO_TARGET_DIR=.build/vx cargo build --offline -q --manifest-path vx/Cargo.toml || exit 1
CARGO_TARGET_DIR=.build/h-lrp RUSTFLAGS=-Awarnings cargo build --offline -q --manifest-path harness/Cargo.toml || true
CARGO_TARGET_DIR=.build/h-stacks RUSTFLAGS=-Awarnings cargo build --offline -q --manifest-path harness/Cargo.toml --no-default-features --features stacks || true
verus --version >/dev/null || exit 1
