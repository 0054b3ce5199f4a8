#!/usr/bin/env python3
"""design_props.py - bring the per-property lines of DESIGN.md (section 3) up to date with spec.py and props.py"""
import re, os, json
from props import PROPS
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = {}
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); spec[p["id"]] = p
out, cur = [], None
for l in open(H + "/DESIGN.md").read().split("\n"):
    m = re.match(r"### ([A-Z]\d\d) ", l)
    if m: cur = m.group(1) if m.group(1) in PROPS else None; l = "### %s %s" % (cur, spec[cur]["title"]) if cur else l
    elif l.startswith("## "): cur = None
    elif cur and l.startswith("*Specified:*"): l = "*Specified:* %s  " % spec[cur]["statement"]
    elif cur and l.startswith("*Enumerated:*"): l = "*Enumerated:* %s.  " % (PROPS[cur]["bounds"] if isinstance(PROPS[cur]["bounds"], str) else PROPS[cur]["bounds"]["quick"])
    elif cur and l.startswith("*Machinery:*"): l = re.sub(r" - .*", lambda _: " - " + PROPS[cur]["note"] + "  ", l, count=1)
    out.append(l)
open(H + "/DESIGN.md", "w").write("\n".join(out))
