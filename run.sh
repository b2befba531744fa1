#!/bin/sh
# Usage: run.sh <property id> [quick|thorough]
# Builds the harness against /repo's current working tree and runs the checks of one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; anything else: no answer.
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR
[ -n "$2" ] && VERIF_TIER="$2"
: "${VERIF_TIER:=quick}" "${VERIF_SEED:=1}"
export VERIF_TIER VERIF_SEED
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$VERIF_DIR/target"
log="$VERIF_DIR/target/build-$1.log"
mkdir -p "$VERIF_DIR/target"
cd "$VERIF_DIR/harness" || exit 2
if ! cargo build --offline --locked >"$log" 2>&1; then
    echo "the harness does not build against /repo:"
    grep -E -A12 '^error' "$log" | head -60
    exit 2
fi
# The quick tier has to answer within the limit of a single check
limit=840
[ "$VERIF_TIER" = thorough ] && limit=14400
# Runaway allocation ends the process of a case, not the machine
ulimit -v 2600000
exec timeout -k 10 "$limit" "$VERIF_DIR/target/debug/harness" run "$1"
