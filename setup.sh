#!/bin/bash
# builds the extractor and the harness (checks build them again if absent)
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
(cd extract && cargo build --release --offline -q) || exit 1
(cd harness && cargo build --offline -q) || echo "the harness does not build against the current source"
exit 0
