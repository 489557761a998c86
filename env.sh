# Sourced by every script of /verif.
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2024-09-24
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export RUST_BACKTRACE=0
export RUST_LOG=off
export VERIF_DIR=${VERIF_DIR:-/verif}
export CARGO_TARGET_DIR=$VERIF_DIR/target
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG
