#!/usr/bin/env python3
"""Generates DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools", "design")
HOW = json.load(open(os.path.join(D, "how.json")))
out = [open(os.path.join(D, "head.md")).read().rstrip(), "", "## 2. Per property", "",
  "Oracle and method per property; bounds are those of the quick tier, in parentheses those of the thorough one.", ""]
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    c = json.load(open(os.path.join(V, "harness", i, "config.json")))
    out.append(f"### {i} {p['title']}"); out.append("")
    out.append("- *How.* " + HOW[i])
    out.append("- *Beyond tests.* " + p["why_tests_cant"])
    out.append("- *Bounds.* " + "; ".join(c.get("bounds", [])) + ".")
    if c.get("assumptions"): out.append("- *Assumes.* " + "; ".join(c["assumptions"]) + ".")
    r = [f"`{a}` → `{b}`" for a, b in c.get("rewrite", {}).items()] + [f"C functions → `{b}`" for b in c.get("cgoStub", {}).values()]
    if r: out.append("- *Stand-ins.* " + ", ".join(r) + ".")
    out.append("")
out += ["## 3. Not applicable", "", "None: every property in properties.jsonl is claimed.", "", open(os.path.join(D, "tail.md")).read().rstrip(), ""]
f = os.path.join(D, "seeds.json")
if os.path.exists(f):
    out += ["### Planted bugs and the checks that catch them", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    S = json.load(open(f))
    for k in sorted(S): out.append(f"| {k} | {S[k]['property']} | {S[k]['needs']} | {S[k]['caught'] or 'not caught'} |")
    out.append("")
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print("DESIGN.md", len(out), "lines")
