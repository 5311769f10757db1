# Sourced by check.sh and setup.sh: offline toolchain settings.
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.96-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_INCREMENTAL CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
