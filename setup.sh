#!/bin/bash
cd "$(dirname "$0")/harness" || exit 2
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
cargo build --release --offline 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
