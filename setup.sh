#!/bin/bash
# Checks that the toolchain works offline and that the explorer enumerates what it should.
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR=$PWD/target/base MC_ROOT=$PWD
mkdir -p out evidence "$CARGO_TARGET_DIR" || exit 1
(cd mc && RUSTFLAGS=-Awarnings cargo build --release --offline -q --no-default-features) || exit 1
exec target/base/release/mc --self-test
