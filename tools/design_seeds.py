# development helper: rewrites the table of planted bugs in DESIGN.md (what each breaks and which check reports it)
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | check that reports it | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{d}/meta.json")); rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
p = H + "/DESIGN.md"; s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
