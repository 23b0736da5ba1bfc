#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from registry.py (plus the BOUNDS text of the harnesses)"""
import ast
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import P  # noqa


def const(pid, name):
    t = ast.parse(open(os.path.join(V, "harness", pid.lower() + ".py")).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return None
    return None


checks, na = [], []
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"],
                                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        pid = p["id"]
        b = const(pid, "BOUNDS")
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid} --tier quick",
            "thorough_cmd": f"python3 check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": p["tech"] or "symbolic execution of the real Python code on symbolic arrays; every assertion decided by z3/cvc5",
            "level": "model_checking",
            "level_note": f"All real inputs within the bounds ({b}), along every feasible execution path of the real functions; "
                          "arithmetic is exact (rounding is not modelled) and library calls outside the repository are the "
                          "exact stand-ins listed in DESIGN.md." + (" " + p["note"] if p["note"] else ""),
        })
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
