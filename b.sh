#!/bin/bash
# developer helper: build the harness
. /verif/env.sh; export CARGO_TARGET_DIR=/verif/target; cd /verif/harness; cargo build --offline 2>&1 | grep -E -A12 "^(error|warning: unused)"
