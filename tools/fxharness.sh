#!/bin/bash
# fxharness.sh <check> [tier]: build the harness against the worktree /tmp/fx
# (a repair in preparation) instead of /repo, and run a check.
. /verif/env.sh
mkdir -p /tmp/hx
cp -a /verif/harness/. /tmp/hx/ && find /tmp/hx -name Cargo.toml -o -name Cargo.lock | xargs sed -i 's#"/repo/#"/tmp/fx/#g'
cd /tmp/hx && export CARGO_TARGET_DIR=/tmp/hxt
sed -i 's#/verif/target#/tmp/hxt#' .cargo/config.toml
cargo build --offline -q -p ${PKG:-evmc} 2>&1 | grep -E "^error" -A9 | head -60
/tmp/hxt/debug/${PKG:-evmc} $1 ${2:-quick}
