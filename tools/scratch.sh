#!/bin/bash
# scratch.sh <seed id> <cargo test args...>: the repository's tests on a scratch
# copy (under /tmp/wt) with a seeded change applied.
. /verif/env.sh
W=/tmp/wt; mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo checkout -q -- . && git -C $W/repo fetch -q ${SRC:-/repo} HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
sed "s#REPO, WS = .*#REPO, WS = '$W/repo', '$W/ws'#" /opt/vp/mkws.py > $W/mkws.py && python3 $W/mkws.py
id=$1; shift
[ "$id" = - ] || git -C $W/repo apply /verif/seeded/$id/patch.diff || exit 3
export CARGO_TARGET_DIR=$W/target CARGO_PROFILE_DEV_OPT_LEVEL=3 CARGO_PROFILE_DEV_DEBUG=line-tables-only
cd $W/ws && cargo test --offline --no-fail-fast "$@" 2>&1 | grep -E "^error|FAILED|failed|panicked|test result: F|test result" | grep -v "0 passed; 0 failed"
git -C $W/repo checkout -q -- .
