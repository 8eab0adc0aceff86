#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KF = "crates/kuadrant-filter/src/"
WS = "crates/wasm-shim/src/"
P = KF + "kuadrant/pipeline/"
PROPS = []

def prop(id, title, statement, over, text, why, files, mech, technique, note, claimed=True, reason=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, claimed=claimed, reason=reason))

exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": ["host calls made by the filter (dispatches, replies, header maps, properties, metrics, pause/resume)"],
                        "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the harness compiles /repo's crates as they are against a simulated host", "source_commits": []},
    "checks": [{
        "property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick", "thorough_cmd": f"bash run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"],
    } for p in sorted(PROPS, key=lambda p: p["id"]) if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in PROPS if not p["claimed"]],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
