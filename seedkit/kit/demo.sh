#!/bin/bash
# Builds the filter natively against the stand-in host beside this file and runs demo.rs against it.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
unset CARGO_TARGET_DIR
w=/tmp/wasm-shim-demo
rm -rf /tmp/wasm-shim-demo
mkdir -p "$w"
trap 'rm -rf /tmp/wasm-shim-demo' EXIT
cp -r "$here/kit/." "$w/"
mkdir -p "$w/shim/gen" "$w/src"
cp -r /repo/crates/wasm-shim/src/. "$w/shim/gen/"
cp /repo/crates/wasm-shim/build.rs "$w/shim/gen/"
python3 - "$w/shim/gen/lib.rs" <<'P'
import re, sys
p = sys.argv[1]
t = open(p).read()
m = re.search(r'export_name\s*=\s*"_start".*?^\s*(?:pub\s+)?(?:unsafe\s+)?extern "C" fn\s+(\w+)\s*\(', t, re.S | re.M)
t += "\npub fn __verif_start() {\n    %s();\n}\n" % (m.group(1) if m else "start")
open(p, "w").write(t)
P
cp "$here/kit/env.rs" "$here/kit/wire.rs" "$w/src/"
cp "$here/demo.rs" "$w/src/main.rs"
cd "$w" || exit 2
$CARGO build --offline -q >"$w/build.log" 2>&1 || { tail -30 "$w/build.log"; exit 2; }
timeout 60 "$w/target/debug/demo"
