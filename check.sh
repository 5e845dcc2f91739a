#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuild from /repo's working tree and explore.
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" || exit 2
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
if ! log=$(cargo build --release --offline 2>&1); then
    echo "$log" | tail -40
    exit 2
fi
exec ./target/release/hypsim check "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}" --out "$here"
