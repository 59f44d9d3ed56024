"""fills the tables of DESIGN.md (between the markers) from seeded/, catches.json, tools/not_applicable.py"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/not_applicable.py").read(), globals())
c = json.load(open(V + "/tools/catches.json")) if os.path.exists(V + "/tools/catches.json") else {}
s = "| planted bug | property | breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    s += f"| {d} | {m['property']} | {m['what_it_breaks']} (needs: {m['needs']}) | {c.get(d, '?')} |\n"
n = "\n".join(f"* **{k}**: {v}" for k, v in sorted(NA.items()))
t = open(V + "/DESIGN.md").read()
for k, x in (("SEEDS", s), ("NA", n)):
    t = re.sub(f"<!-- {k} -->.*<!-- /{k} -->|@@{k}@@", lambda _: f"<!-- {k} -->\n{x}\n<!-- /{k} -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
