#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below, the per-property sections from properties.jsonl, checks.py and DETAIL."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from checks import CHECKS
from design_text import HEAD, DETAIL, TAIL
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
out = [HEAD]
for p in props:
    i = p["id"]
    d = DETAIL.get(i, {})
    c = CHECKS[i]
    hs = ", ".join("harness/%s" % (h["src"][0] if h["flags"] != "py" else "c34_python.py + c34_oracle.cpp") for h in c["harness"])
    out.append("### %s — %s\n" % (i, p["title"]))
    out.append("*Enumerated (%s).* %s" % (hs, c["explanation"]))
    for k, t in (("oracle", "*Oracle.*"), ("bounds", "*Bounds and cost.*"), ("why", "*Beyond the tests.*"), ("notes", "*Read as / not claimed.*"), ("seeds", "*Planted changes caught.*")):
        if d.get(k):
            out.append("%s %s" % (t, d[k]))
    out.append("")
seeds = {}
for s in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, s)))
    seeds.setdefault(m["property"], []).append((s, m))
out.append("## Planted changes\n")
out.append("Each compiles and passes all 89 stable tests. All listed ones are caught by the quick check of their property.\n")
out.append("| change | property | needs | breaks |\n|---|---|---|---|")
for p in props:
    for s, m in seeds.get(p["id"], []):
        out.append("| %s | %s | %s | %s |" % (s, p["id"], m["needs"], m["what_it_breaks"]))
out.append("")
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
