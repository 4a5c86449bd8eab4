#!/bin/bash
# development helper
cd /verif/vx && CARGO_TARGET_DIR=/tmp/vxt cargo build --offline -q 2>/dev/null
mkdir -p /tmp/gen
/tmp/vxt/debug/vx --specs /verif/contracts --out /tmp/gen/all.rs --map /tmp/gen/map.json || exit 1
cd /tmp/gen && timeout 600 verus all.rs --triggers-mode silent --multiple-errors 5 --num-threads 8 "$@" 2>&1
