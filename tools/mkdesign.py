"""DESIGN.md from its parts, the list of repaired defects and the results for planted bugs"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda n: open(os.path.join(V, n)).read()
t = rd("tools/design/tail.md")
fx = []
for l in json.loads(rd("known-findings.json"))["fixed"]:
    _, p, c, *w = l.split(" ")
    fx.append("* %s `%s` %s" % (p.split("=")[1], c, " ".join(w)))
res = {}
if os.path.exists(os.path.join(V, "tools/design/bugs.txt")):
    for l in rd("tools/design/bugs.txt").split("\n"):
        w = l.split()
        if len(w) >= 3:
            res[w[0]] = w[2].lower()
rows = ["| bug | check | result | what it breaks |", "|---|---|---|---|"]
ids = sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    m = json.loads(rd("seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], res.get(i, "not run"), m["what_it_breaks"].replace("|", "/")))
t = t.replace("@FIXED@", "\n".join(fx)).replace("@BUGS@", "\n".join(rows)).replace("@NBUGS@", str(len(ids)))
open(os.path.join(V, "DESIGN.md"), "w").write(rd("tools/design/head.md") + rd("tools/design/body.md") + "\n" + t)
