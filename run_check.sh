#!/bin/bash
# run_check.sh ID: builds what the check of the property needs from /repo's working tree and
# runs it. VERIF_TIER (quick or thorough) and VERIF_SEED come from the environment.
# run_check.sh replay FILE: runs a replay file again.
cd "$(dirname "$0")" || exit 2
. ./env.sh
checker_for() {
    case "$1" in
        C0?|C1[0-3]) echo "harness cachecheck" ;;
        C15) echo "harness protocheck" ;;
        C14|C1[6-9]|C2?) echo "harness rtcheck" ;;
        C30) echo "harness servicecheck" ;;
        *) return 1 ;;
    esac
}
mode=check; arg=$1; id=$1
if [ "$1" = replay ]; then
    mode=replay; arg=$2; id=$(basename "$2"); id=${id%%-*}
fi
set -- $(checker_for "$id") || exit 2
[ -n "$2" ] || { echo "ERROR: no check for $id"; exit 2; }
log=$(mktemp)
if ! (cd "$1" && cargo build --offline --locked -p "$2" --bin "$2") > "$log" 2>&1; then
    grep -E '^error' -A12 "$log" | head -60
    echo "ERROR: the code doesn't build"
    rm -f "$log"
    exit 2
fi
rm -f "$log"
# The loggers under test write to the standard error stream too.
exec "$CARGO_TARGET_DIR/debug/$2" "$mode" "$arg" 2>/dev/null
