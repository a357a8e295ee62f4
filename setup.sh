#!/bin/bash
# Builds the harness once (every check rebuilds incrementally from /repo's current tree).
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here/harness" && cargo build --offline --quiet --bins -p pbt -p protox
