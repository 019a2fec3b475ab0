"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    needs = re.sub(r"\s+", " ", m["needs"]).replace("|", "/").rstrip(".")
    rows.append(f"| {i} | {m['property']} | {needs} | {m.get('reported_by', m['property'])} |")
s = open(V + "/DESIGN.md").read()
head = "| change | property | what it needs | reported by |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
open(V + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + s[b:])
