"""seedtable.py : the table of seeded bugs in DESIGN.md, from seeded/*/meta.json (all of them are rechecked by catch.py)"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | what it breaks | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(f"{HERE}/seeded")):
    m = json.load(open(f"{HERE}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['what_it_breaks'].strip()} | {m['property']}{m.get('caught', '')} |")
p = f"{HERE}/DESIGN.md"
s = open(p).read()
t = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("@@SEEDS@@", t) if "@@SEEDS@@" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
