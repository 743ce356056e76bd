#!/bin/bash
# builds vx and the concrete harness (checks rebuild what is missing or out of date)
cd "$(dirname "$0")/.." && mkdir -p build && (cd vx && RUSTFLAGS= CARGO_TARGET_DIR=../build/vx cargo build --offline --quiet) && exec python3 tools/check.py --setup
