#!/bin/bash
# Builds the whole harness once, so that the checks only rebuild what changed.
. "$(dirname "$0")/env.sh"
cd "$VERIF_DIR/harness" && cargo build --offline -q
