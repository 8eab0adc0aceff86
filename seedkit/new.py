#!/usr/bin/env python3
"""new.py <id> <spec.json>: spec = {property, needs, breaks, edits:[[file, old, new],...], demo}"""
import json, os, subprocess, sys
i, spec = sys.argv[1], json.load(open(sys.argv[2])) if sys.argv[2] != "-" else json.load(sys.stdin)
d = "/verif/seeded/%s" % i
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
for f, old, new, *nth in spec["edits"]:
    p = "/repo/" + f
    t = open(p).read()
    if nth == ["all"]:
        assert old in t, (f, old)
        open(p, "w").write(t.replace(old, new))
        continue
    assert t.count(old) == 1, (f, old, t.count(old))
    open(p, "w").write(t.replace(old, new))
diff = subprocess.check_output(["git", "-C", "/repo", "diff"]).decode()
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if spec.get("demo"):
    open(d + "/demo.rs", "w").write(spec["demo"])
subprocess.check_call(["python3", "/verif/seedkit/mk.py", i])
