#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design.md, the repaired defects, and which check catches which planted bug."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(ROOT, "tools/design.md")).read()
s += "## Defects found and repaired in /repo\n\n"
for ln in open(os.path.join(ROOT, "known_findings.txt")):
    if ln.startswith("fixed:"):
        _, p, c, t = ln.strip().split(" ", 3)
        s += "* %s `%s` %s\n" % (p.split("=")[1], c, t)
s += "\n## Planted bugs\n\nAll were written from the property and the code; `tools/bugs/*.py` holds their sources\n(`gen.py` writes `seeded/`), `tools/seed.py` tries them in a scratch copy.\n\n| bug | what it breaks | caught by (first clause) |\n|---|---|---|\n"
R = os.path.join(ROOT, "tools/seed_results.json")
res = json.load(open(R))
new = os.environ.get("SEED_OUT", "/tmp/seed_new.json")
if os.path.exists(new):  # what tools/seed.py found since
    for i, r in json.load(open(new)).items():
        res.setdefault(i, {}).update(r)
    res = {i: r for i, r in res.items() if os.path.isdir(os.path.join(ROOT, "seeded", i))}
    json.dump(res, open(R, "w"), indent=1, sort_keys=True)
for i in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", i, "meta.json")))
    r = res.get(i, {})
    t = "; ".join("%s: %s" % (p, r[p]) for p in sorted(r)) or "not yet run"
    s += "| %s | %s | %s |\n" % (i, m["what_it_breaks"].replace("|", "/"), t.replace("|", "/"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
