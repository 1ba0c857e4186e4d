#!/bin/bash
# builds the native replay program (debug checks on); prints its path
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS=
export CARGO_TARGET_DIR=${VERIF_TARGET:-/verif/harness/target}/native
cargo build --offline --features native 1>&2 || exit 1
echo "$CARGO_TARGET_DIR/debug/harness"
