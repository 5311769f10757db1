#!/bin/bash
# Usage: check.sh ID [quick|thorough]   Builds the harness against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 3
V=$PWD
. "$V/env.sh"
id=$1; tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$V/evidence"
target=$V/harness/target opts=
if [ "$id" = C04 ]; then
  # the guarded accessors of the library
  export RUSTFLAGS="--cfg rekordcrate_verif"
  target=$V/harness/target-hooks opts="--features hooks"
fi
log=$(mktemp)
if [ "$id" = C20 ] || [ "$id" = C22 ]; then
  # the command line tool itself
  if ! cargo build --offline --locked --manifest-path /repo/Cargo.toml --bin rekordcrate --target-dir "$V/harness/target-cli" \
      --config 'profile.dev.opt-level=1' --config 'profile.dev.debug=0' >"$log" 2>&1; then
    cat "$log" >&2; rm -f "$log"; echo "build of the command line tool failed" >&2; exit 3
  fi
  export RCV_CLI=$V/harness/target-cli/debug/rekordcrate
fi
if ! (cd "$V/harness" && cargo build --release --offline --locked --target-dir "$target" $opts) >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"; echo "harness build failed" >&2; exit 3
fi
rm -f "$log"
export RCV_VERIF=$V
exec "$target/release/rcv" "$id" "$tier"
