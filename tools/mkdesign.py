#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in, the manifest, the findings, the planted bugs and tools/props.md."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(V + "/MANIFEST.json"))
k = json.load(open(V + "/known_findings.json"))
props = {p["id"]: p for p in map(json.loads, open(V + "/properties.jsonl"))}
t = open(V + "/tools/DESIGN.in").read()
notes = {}
cur = None
for l in open(V + "/tools/props.md"):
    if l.startswith("## "):
        cur = l[3:].strip(); notes[cur] = ""
    elif cur:
        notes[cur] += l
specs = notes.pop("specs", "").strip()
ps = []
claimed = {c["property_id"] if "property_id" in c else c.get("property") for c in m["checks"]}
for i, p in sorted(props.items()):
    if i in claimed:
        ps.append("### %s %s\n%s\n" % (i, p["title"], notes.get(i, "").strip()))
na = ["* %s (%s): %s" % (x.get("property_id", x.get("property")), props[x.get("property_id", x.get("property"))]["title"], x["reason"]) for x in m["not_applicable"]]
seeds = ["| planted bug | property | needs | by |", "|---|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    s = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    seeds.append("| %s | %s | %s | %s |" % (n, s["property"], s["needs"], caught.get(n, s["property"])))
fixed = ["* " + x for x in k["fixed"]]
known = ["* %s: %s" % (x["property"], x["what"]) for x in k["findings"]]
for a, b in (("SPECS", specs), ("PROPS", "\n".join(ps)), ("NA", "\n".join(na)), ("FIXED", "\n".join(fixed)), ("KNOWN", "\n".join(known)), ("SEEDS", "\n".join(seeds))):
    t = t.replace("@@%s@@" % a, b)
open(V + "/DESIGN.md", "w").write(t)
