#!/bin/bash
# Build the harness (and with it pywr-core / pywr-schema from /repo's working tree), and the command line tool for C29.
set -e
cd "$(dirname "$0")"
. ./env.sh
export CARGO_TARGET_DIR="$PWD/target"
cd harness
cargo build --offline --quiet --bin pywr-verif
# A tool that does not compile is for C29 to tell.
cargo build --offline --quiet --bin pywr-cli || true
