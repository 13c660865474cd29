#!/usr/bin/env python3
"""Fills the tables of DESIGN.md (design_src.md is the text) from methods.json and seeded/*/meta.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(R + "/tools/design_src.md").read()
m = json.load(open(R + "/tools/methods.json"))
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
t = t.replace("@PROPS@", "\n\n".join("**%s %s.** %s" % (p["id"], p["title"], m.get(p["id"], "no monitor yet")) for p in props))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"], d.get("caught_by", "?")))
t = t.replace("@SEEDED@", "\n".join(rows))
open(R + "/DESIGN.md", "w").write(t)
