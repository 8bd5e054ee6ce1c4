#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and harness/."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = {}
p = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(p):
    na = json.load(open(p))
checks, nal = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if i in na:
        nal.append({"property": i, "reason": na[i]})
        continue
    h = os.path.join(V, "harness", i)
    if not os.path.isdir(h) or not os.path.exists(os.path.join(h, "config.json")):
        nal.append({"property": i, "reason": "no check built yet"})
        continue
    c = json.load(open(os.path.join(h, "config.json")))
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh check {i} quick",
        "thorough_cmd": f"bash check.sh check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the real Go code (go/ssa) with SMT-decided assertions" + ("; schedules and durations symbolic" if c.get("schedules") else ""),
        "level": "model_checking",
        "level_note": ("Holds for every input within the bounds: " + "; ".join(c.get("bounds", [])) +
            ". Assumes: " + "; ".join(["executor and SMT solver sound (path models are replayed natively on every run)"] + c.get("assumptions", [])) + ".")
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": nal,
     "notes": "One symbolic executor (engine/) and one harness directory per property (harness/<ID>/). See DESIGN.md. Replay a violation with: bash check.sh replay <file>."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(nal), "not claimed")
