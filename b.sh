#!/bin/bash
# Builds the harness (and the real server binary) from /repo's working tree.
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/env.sh"
cd "$V/harness" && CARGO_TARGET_DIR="$V/target" cargo build --release --offline "$@"
