#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [D + "/tools"]
import props
with open(D + "/properties.jsonl", "w") as o:
    for p in sorted(props.PROPS + props.NA, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        o.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["quant"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "python3 check.py %s --thorough" % p["id"], "technique": p["technique"], "level": "other",
                 "level_note": p["note"] or "static analysis of the compiled sources of the current tree: every path / call site / obligation in scope is decided, none is executed"} for p in props.PROPS],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props.NA],
     "notes": "no hooks in /repo; the analyser (engine/) compiles /repo's working tree to LLVM IR on every run and caches by content hash under /verif/.cache"}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
