#!/bin/bash
# Builds the simulator against /repo's working tree, offline.
cd "$(dirname "$0")/../sim" || exit 2
log=$(mktemp)
if ! CARGO_NET_OFFLINE=true cargo build --offline --quiet >"$log" 2>&1; then
    # the command line tools are modules of the simulator, which asks more of their sources than
    # building them does: only C21 needs them
    if [ "$1" != C21 ] && CARGO_NET_OFFLINE=true cargo build --offline --quiet --no-default-features --features dump,capi,probe,bench >/dev/null 2>&1; then
        rm -f "$log"
        exit 0
    fi
    grep -E "^error" -A8 "$log" >&2 || tail -40 "$log" >&2
    rm -f "$log"
    echo "building the simulator failed" >&2
    exit 2
fi
rm -f "$log"
