#!/bin/bash
# run.sh <property> [quick|thorough]: builds the harness from /repo's current
# tree and runs one check.
. "$(dirname "$0")/env.sh"
id=$1
[ -n "$2" ] && export VERIF_TIER=$2
case $id in
C01 | C02 | C03 | C04) bin=mptc ;;
C05 | C06) bin=smtc ;;
*) bin=evmc ;;
esac
# Large blocks are allocated again and again.
[ "$id" = C24 ] && export MALLOC_TRIM_THRESHOLD_=4000000000 MALLOC_MMAP_THRESHOLD_=4000000000
cd "$VERIF_DIR/harness" || exit 2
log=$(mktemp)
if ! cargo build --offline -q -p "$bin" 2>"$log"; then
  tail -40 "$log" >&2
  rm -f "$log"
  echo "build failed" >&2
  exit 2
fi
rm -f "$log"
exec "$CARGO_TARGET_DIR/debug/$bin" "$id"
