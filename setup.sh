#!/bin/bash
# builds the extractor and the native oracle; every check builds what it needs again if this is not there
cd "$(dirname "$0")" || exit 1
mkdir -p .build evidence
export CARGO_NET_OFFLINE=true
(cd vx && CARGO_TARGET_DIR=../.build/vx cargo build --offline -q 2>/dev/null) || exit 1
(cd replay && CARGO_TARGET_DIR=../.build/replay cargo build --release --offline -q --features internal 2>/dev/null)
verus --version >/dev/null
