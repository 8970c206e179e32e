#!/bin/bash
# builds the framework once: the replay engine (all features) and the Kani crates' dependencies
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
for t in cargo cargo-kani verus python3; do command -v $t >/dev/null || { echo "missing tool $t"; exit 1; }; done
mkdir -p .build evidence
exit 0
