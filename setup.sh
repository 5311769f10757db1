#!/bin/bash
# Builds the harness once, offline (each check rebuilds what it needs from /repo's working tree).
cd "$(dirname "$0")" || exit 3
. ./env.sh
mkdir -p evidence/replay
cd harness && cargo build --release --offline --locked &&
RUSTFLAGS="--cfg rekordcrate_verif" cargo build --release --offline --locked --target-dir target-hooks --features hooks &&
cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin rekordcrate --target-dir target-cli --config 'profile.dev.opt-level=1' --config 'profile.dev.debug=0'
