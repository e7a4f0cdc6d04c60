"""DESIGN.md = design_head.md + the table of planted bugs."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
res = {}
p = os.path.join(H, "seeded_results.txt")
for l in open(p) if os.path.exists(p) else []:
    w = l.split()
    res.setdefault(w[0], {})[w[1]] = (w[2], w[3])
out = open(os.path.join(H, "design_head.md")).read()
out += "## Planted bugs\n\nEach was written from a property's text and the code alone and breaks the property while all stable tests pass\n"
out += "(`seeded/<id>/`). Time: until the violation was found, confirmed and minimised by the quick check, VERIF_SEED=1.\n\n"
out += "| bug | what it breaks | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    r = res.get(d, {})
    c = ", ".join(f"{k} ({t})" for k, (rc, t) in r.items() if rc == "rc=1") or ("**missed**" if r else "not run yet")
    out += f"| {d} | {m['what_it_breaks']} | {m['needs']} | {c} |\n"
open(os.path.join(V, "DESIGN.md"), "w").write(out)
