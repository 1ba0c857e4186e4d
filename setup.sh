#!/bin/bash
# Builds the executor and the harnesses (IR and native) offline.
set -e
cd "$(dirname "$0")"
(cd engine && CARGO_NET_OFFLINE=true RUSTFLAGS= cargo build --release --offline --target-dir target 2>&1 | tail -1)
bash harness/build-ir.sh >/dev/null
bash harness/build-native.sh >/dev/null
bash term/build-ir.sh >/dev/null
bash term/build-native.sh >/dev/null
echo "setup done"
