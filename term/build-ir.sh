#!/bin/bash
# usage: build-ir.sh  -> prints the path of the LLVM IR of harness + rtforth
cd "$(dirname "$0")" || exit 1
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS=
export CARGO_TARGET_DIR=${VERIF_TARGET:-/verif/term/target}/ir
cargo rustc --release --offline -- --emit=llvm-ir -C link-arg=-Wl,--unresolved-symbols=ignore-all 1>&2 || exit 1
find "$CARGO_TARGET_DIR" -name 'termharness*.ll' -printf '%T@ %p\n' | sort -n | tail -1 | cut -d' ' -f2
