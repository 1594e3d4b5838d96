#!/bin/sh
# builds the symbolic executor and checks that the harness and the replay program build
set -e
cd "$(dirname "$0")/.."
export CARGO_NET_OFFLINE=true
(cd engine && cargo build --release --offline --target-dir target)
