"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (never used by a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
head = s[:s.index("<!-- seeded -->")]
rows = ["| change | property | needs | breaks | caught |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {m.get('caught', m['property'])} |")
open(V + "/DESIGN.md", "w").write(head + "<!-- seeded -->\n" + "\n".join(rows) + "\n")
