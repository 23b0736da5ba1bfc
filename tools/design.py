"""Assembles DESIGN.md: hand-written text below, bounds and stubs of the harnesses, known findings, planted bugs."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
HOW = {}
for block in open(os.path.join(V, "tools", "design_how.md")).read().split("\n## ")[1:]:
    k, t = block.split("\n", 1)
    HOW[k.strip()] = t.strip()

props = [json.loads(line) for line in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
claimed = {c["property"] if "property" in c else c.get("id") for c in man.get("checks", [])}
out = [HEAD.rstrip(), "", "## The properties, one by one", ""]
for p in sorted(props, key=lambda p: p["id"]):
    m = importlib.import_module("harness." + p["id"].lower())
    out += [f"### {p['id']} {p['title']}", "", HOW.get(p["id"], "(see the harness)"), ""]
    out += [f"*Bounds (quick):* {m.BOUNDS}."]
    st = getattr(m, "STUBS", [])
    if st:
        out += [f"*Stand-ins:* {'; '.join(st)}."]
    out += [f"*Scenarios:* {len(m.scenarios('quick'))} quick, {len(m.scenarios('thorough'))} thorough.", ""]
out += ["## Findings in the repository", "", "Every one was reported by a check on the unchanged tree (or met while writing one), reproduced on the "
        "real code, repaired in a `fix:` commit, and the check reports it again when the commit is reverted.", ""]
L = json.load(open(os.path.join(V, "known_findings.json")))
L = L if isinstance(L, list) else L["findings"]
out += [f"* {x['record']}" for x in L] + [""]
out += ["## Planted bugs", "", "| planted bug | property | what it needs | caught by |", "|---|---|---|---|"]
cf = os.path.join(V, "tools", "caught.json")
caught = json.load(open(cf)) if os.path.exists(cf) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    b = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    out.append(f"| {b} | {d['property']} | {d['needs'].replace('|', '/')} | {caught.get(b, '?')} |")
out += ["", TAIL.rstrip(), ""]
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print("DESIGN.md", len("\n".join(out)))
