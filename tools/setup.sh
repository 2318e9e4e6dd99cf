#!/bin/bash
# Builds the model checker over /repo's working tree (the checks do it again themselves).
set -e
cd "$(dirname "$0")/../mc/harness"
export RUSTC_WRAPPER="$PWD/../wrap.sh" CARGO_TARGET_DIR="$PWD/../target"
for p in dev o0 rel; do cargo +nightly build --offline --locked -q --profile $p 2>/dev/null || cargo +nightly build --offline --locked --profile $p; done
cd ../real
unset RUSTC_WRAPPER
export RUSTFLAGS="--cfg congee_verif -Awarnings" CARGO_TARGET_DIR="$PWD/../target/real"
cargo +nightly build --offline --locked -q --release 2>/dev/null || cargo +nightly build --offline --locked --release
