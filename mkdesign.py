#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, scen_conf.py, properties.jsonl, design_notes.json and the planted bugs table."""
import json, os
from scen_conf import CONF
import importlib.util
props = [json.loads(l) for l in open("properties.jsonl")]
notes = json.load(open("design_notes.json"))
na = {x["property"]: x["reason"] for x in json.load(open("MANIFEST.json"))["not_applicable"]}
out = [open("design_head.md").read().rstrip(), "", "## How each property is decided", ""]
for p in props:
    i = p["id"]
    if i in CONF:
        c = CONF[i]; n = notes["props"].get(i, {})
        out += ["### %s %s" % (i, p["title"]), ""]
        out += ["- *Runs and faults:* " + c["rule"]]
        if n.get("oracle"): out += ["- *Oracle:* " + n["oracle"]]
        if n.get("why"): out += ["- *Why tests cannot settle it:* " + n["why"]]
        out += ["- *Bounds and cost:* %d runs quick, %d thorough%s. States counted: %s." % (c["quick"], c["thorough"], ("; " + n["cost"]) if n.get("cost") else "", c["states"])]
        out += ["- *Real code:* %s. *Simulated:* %s." % ("; ".join(c["real"]), "; ".join(c["stub"]))]
        if c.get("assume"): out += ["- *Assumes:* " + "; ".join(c["assume"]) + "."]
        out += [""]
out += ["## Not applicable", "", "These are semantic properties of flut that this family of technique cannot decide:", ""]
for p in props:
    if p["id"] in na: out += ["- **%s %s**: %s." % (p["id"], p["title"], na[p["id"]])]
out += ["", open("design_tail.md").read().rstrip(), ""]
t = notes.get("caught", {})
out += ["## Planted bugs and the checks that catch them", "", "Each is in `seeded/<id>/` with a demonstration; 'first' says whether the check caught it when it was planted, 'now' whether it does since.", "", "| bug | property | needs | first | now |", "|---|---|---|---|---|"]
for b in sorted(os.listdir("seeded")) if os.path.isdir("seeded") else []:
    m = json.load(open("seeded/%s/meta.json" % b)); r = t.get(b, {})
    out += ["| %s | %s | %s | %s | %s |" % (b, m["property"], m["needs"], r.get("first", "caught"), r.get("now", "caught"))]
open("DESIGN.md", "w").write("\n".join(out) + "\n")
