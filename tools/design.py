#!/usr/bin/env python3
"""Writes DESIGN.md from notes/design_head.md, notes/design_props.md, the harness aspects, known_findings.tsv and notes/seeded.tsv."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(V, f)).read()
props = [json.loads(l) for l in rd("properties.jsonl").splitlines() if l.strip()]
txt = dict(re.findall(r"^## (P\d+)\n(.*?)(?=^## |\Z)", rd("notes/design_props.md"), re.M | re.S))
def aspects(pid):
    f = glob.glob(os.path.join(V, "harness", pid + "_*.cpp"))[0]
    out = []
    for n, q, t, r in re.findall(r'VP_ASPECT\((\w+),\s*(\d+),\s*(\d+),\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        out.append(f"  - `{n}`: {int(q):,} / {int(t):,} cases. {r}")
    return os.path.basename(f), "\n".join(out)
seeded = [l.split("\t") for l in rd("notes/seeded.tsv").splitlines() if l.strip() and not l.startswith("#")]
o = [rd("notes/design_head.md")]
o.append("\n# The properties, one by one\n\nCase counts are quick / thorough, summed over the whole run of an aspect; every aspect states its non-triviality rule.\n")
for p in sorted(props, key=lambda p: p["id"]):
    h, a = aspects(p["id"])
    fx = [l for l in rd("known_findings.tsv").splitlines() if f"property={p['id']} " in l]
    o.append(f"\n## {p['id']} {p['title']}\n\n{txt[p['id']].strip()}\n\nHarness `harness/{h}`:\n{a}\n")
    s = [x for x in seeded if x[1] == p["id"]]
    if s: o.append("\nPlanted changes: " + "; ".join(f"`{x[0]}` ({x[2]})" for x in s) + ".\n")
    if fx: o.append("\nDefects found here and repaired: " + "; ".join(" ".join(l.split()[2:3]) + " " + " ".join(l.split()[3:]) for l in fx) + ".\n")
o.append("\n" + rd("notes/design_tail.md"))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(o))
