"""Writes DESIGN.md from tools/DESIGN.in.md, the plans, and tools/caught.txt (lines of runseeds.py). Arguments: logs
of runseeds.py whose results are taken over into tools/caught.txt."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
import plans
res = {}
C = V + "/tools/caught.txt"
for f in ([C] if os.path.exists(C) else []) + sys.argv[1:]:
    for m in re.finditer(r"^(c\d\d-\S+)\s+(C\d\d) (caught|MISSED)", open(f).read(), re.M):
        res[m.group(1)] = (m.group(2), m.group(3))
res = {i: v for i, v in res.items() if os.path.isdir(V + "/seeded/" + i)}
open(C, "w").write("".join("%s %s %s\n" % (i, *v) for i, v in sorted(res.items())))
rows = []
for p, x in sorted(plans.PLANS.items()):
    fam = ", ".join(dict.fromkeys(f[0] for f in x["families"]))
    rows.append("| %s | %s | %s | %s |" % (p, ", ".join("`%s`" % c for c in sorted(x["conj"])), fam, ", ".join(x.get("models", [])) or "–"))
seeds = ["| planted bug | breaks | check | |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    seeds.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["property"], res.get(i, ("", "not run yet"))[1]))
s = open(V + "/tools/DESIGN.in.md").read().replace("@@TABLE@@", "\n".join(rows)).replace("@@SEEDS@@", "\n".join(seeds))
open(V + "/DESIGN.md", "w").write(s)
print(sum(v[1] == "caught" for v in res.values()), "caught", [i for i, v in res.items() if v[1] != "caught"], "missed")
