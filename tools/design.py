#!/opt/veriftools/pyvenv/bin/python
"""Writes DESIGN.md from tools/design_head.md, the harnesses' bounds, properties.jsonl and tools/seed/results.txt (run by hand)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, "/repo"]
sys.path.insert(0, HERE + "/tools")
from design_text import HEAD, HOW, TAIL
from props import index
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
spec = {}
for m in sorted(set(index.MODULES.values())):
    spec.update(importlib.import_module("props." + m).SPEC)
out = [HEAD.strip(), "", "## Properties and how each is decided", ""]
for p in props:
    i = p["id"]
    s = spec[i]
    out += [f"### {i} {p['title']}", "", p["statement"], "",
            f"*Decided by:* {HOW[i]}", "",
            f"*Bounds:* {s['bounds']}.", "",
            f"*Outside:* {s['outside']}.", ""]
    if s.get("assumptions"):
        out += ["*Assumes:* " + "; ".join(s["assumptions"]) + ".", ""]
out += [TAIL.strip(), "", "## Planted bugs", "",
        "Each was written from the property text and the code, confirmed with `tools/seed/mk.py` (tests pass, demonstration fails "
        "only with it) and run against the quick check of its property with `tools/seed/try.sh`.", "",
        "| bug | property | what it needs | caught by |", "|---|---|---|---|"]
res = {}
for l in open(HERE + "/tools/seed/results.txt"):
    w = l.split()
    if len(w) >= 3:
        res[w[0]] = w[2]
for b in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{b}/meta.json"))
    r = res.get(b)
    c = f"{m['property']} quick" if r == "rc=1" else ("MISSED" if r == "rc=0" else "not run")
    out.append(f"| {b} | {m['property']} | {m['needs']} | {c} |")
open(HERE + "/DESIGN.md", "w").write("\n".join(out) + "\n")
