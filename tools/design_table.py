"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
