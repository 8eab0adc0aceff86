#!/bin/bash
# Build the harness against /repo's working tree, offline.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR
python3 "$here/sync.py" || exit 2
cd "$here/harness" || exit 2
log="$(mktemp)"
if ! ${CARGO:-cargo} build --offline -q --bin check >"$log" 2>&1; then
    tail -n 60 "$log"
    rm -f "$log"
    echo "the harness does not build"
    exit 2
fi
rm -f "$log"
