#!/bin/bash
# Builds the worlds once, so that later checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
export RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$PWD/sim/target" CARGO_TERM_COLOR=never
unset CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
. ./build.inc
fresh bare
fresh sim
cd sim || exit 2
(cargo build --offline --profile bare --bins 2>&1 | tail -3; exit "${PIPESTATUS[0]}") & b=$!
cargo build --offline --profile sim --bins 2>&1 | tail -3
r=${PIPESTATUS[0]}
wait $b && exit "$r"
exit 2
