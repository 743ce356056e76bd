#!/bin/bash
# builds the concrete harness (development)
cd /verif/harness && LISO_VERIF_DIR=/verif/hooks LISO_VERIF_GEN=/verif/build/gen RUSTFLAGS="--cfg liso_verif" CARGO_TARGET_DIR=/verif/build/harness cargo build --offline 2>&1 | grep -E "^(error|warning)" -A8
