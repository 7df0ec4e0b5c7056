#!/bin/bash
# Builds the extractor and the concrete harness (offline).
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
(cd extract && CARGO_TARGET_DIR="$PWD/../.build/extract" cargo build --offline -q)
(cd harness && CARGO_TARGET_DIR="$PWD/../.build/harness" cargo build --offline -q && CARGO_TARGET_DIR="$PWD/../.build/harness" cargo build --offline -q --profile plain)
verus --version | head -2
