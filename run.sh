#!/bin/bash
# run.sh <property> <quick|thorough>: rebuild against /repo's working tree, then run the property's check.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export CARGO_TARGET_DIR="$PWD/target" VERIF_ROOT="$PWD"
mkdir -p target
bins="--bin pywr-verif"
[ "$1" = C29 ] && bins="$bins --bin pywr-cli"
if ! (cd harness && cargo build --offline --quiet $bins) >"$PWD/target/build-$1.log" 2>&1; then
    tail -40 "$PWD/target/build-$1.log"
    echo "build failed"
    exit 2
fi
# a case that runs away ends its own worker, not the sandbox
ulimit -v 4000000
exec ./target/debug/pywr-verif run "$1" "$2" "${VERIF_SEED:-1}"
