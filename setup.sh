#!/bin/bash
# builds the recorders once; every check builds again from /repo's current tree
cd "$(dirname "$0")" || exit 1
export CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
bash harness-gpu/fake/build.sh "$PWD/target/fakegpu"
bash harness-exp/ws.sh "$PWD/target/expws"
for c in harness harness-gpu harness-csv harness-exp; do (cd $c && cargo build --offline --quiet) || exit 1; done
