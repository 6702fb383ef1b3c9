#!/bin/bash
# Builds the harness offline in all configurations and compares its reference arithmetic with Python's integers.
set -e
cd "$(dirname "$0")/../harness"
export CARGO_TARGET_DIR="${BABS_TARGET:-$(cd .. && pwd)/target}" CARGO_NET_OFFLINE=true
cargo build --offline --locked --profile checked
cargo build --offline --locked --release
python3 ../tools/selftest.py "$CARGO_TARGET_DIR/release/babs-mon"
