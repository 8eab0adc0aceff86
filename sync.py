#!/usr/bin/env python3
"""Copy /repo's wasm-shim sources next to the harness manifest, plus one exported entry point.

The crate in /repo is a cdylib that only builds against the Kuadrant proxy-wasm fork; the copy is
compiled natively against the stand-in in harness/stub.  The only edit is an appended wrapper that
calls the wasm entry point (`_start`)."""
import os, re, sys

SRC = "/repo/crates/wasm-shim"
DST = os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness/shim/gen")

def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, encoding="utf-8") as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)

want = set()
for root, _, files in os.walk(os.path.join(SRC, "src")):
    for name in files:
        p = os.path.join(root, name)
        rel = os.path.relpath(p, os.path.join(SRC, "src"))
        text = open(p, encoding="utf-8").read()
        if rel == "lib.rs":
            m = re.search(r'export_name\s*=\s*"_start".*?^\s*(?:pub\s+)?(?:unsafe\s+)?extern "C" fn\s+(\w+)\s*\(', text, re.S | re.M)
            fn = m.group(1) if m else "start"
            text += "\n#[doc(hidden)]\npub fn __verif_start() {\n    %s();\n}\n" % fn
        put(os.path.join(DST, rel), text)
        want.add(os.path.join(DST, rel))
put(os.path.join(DST, "build.rs"), open(os.path.join(SRC, "build.rs"), encoding="utf-8").read())
want.add(os.path.join(DST, "build.rs"))
for root, _, files in os.walk(DST):
    for name in files:
        p = os.path.join(root, name)
        if p not in want:
            os.remove(p)
