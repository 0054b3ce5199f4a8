#!/usr/bin/env python3
"""gen.py - writes properties.jsonl and MANIFEST.json from spec.py and props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE); sys.path.insert(0, HERE)
from spec import SPEC
from props import PROPS
try: from props import NA
except ImportError: NA = {}
with open(ROOT + "/properties.jsonl", "w") as f:
    for s in SPEC: f.write(json.dumps(s, ensure_ascii=False) + "\n")
checks, na = [], []
for s in SPEC:
    i = s["id"]
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 run.py {i} quick", thorough_cmd=f"python3 run.py {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique=p["technique"], level=p["level"], level_note=p["note"] + " Bounds (quick): " + (p["bounds"] if isinstance(p["bounds"], str) else p["bounds"]["quick"]) + "."))
    else: na.append(dict(property=i, reason=NA.get(i, "not claimed yet: the exploration harness for it is not finished")))
m = dict(version=1, setup_cmd="python3 tools/selfcheck.py", checks=checks, not_applicable=na,
         notes="No hooks are compiled into the library: harnesses include the header-only sources from /repo/code, intercept libc by link-time wrapping and observe through the public API. run.py builds the harness from the current tree, explores, and writes evidence/<id>.json.")
json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1); open(ROOT + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
