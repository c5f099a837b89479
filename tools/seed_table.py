#!/usr/bin/env python3
"""Rewrites the seeded-bug table of DESIGN.md from seeded/*/meta.json and tools/seed_results.json
(name -> {check: exit code}), which is produced by running the checks against patched trees."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, "tools", "seed_results.json")))
rows = ["| id | what it breaks | caught by |", "|----|----------------|-----------|"]
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    r = res.get(n, {})
    by = ", ".join(sorted(k for k, c in r.items() if c == 1)) or ("missed by " + ", ".join(sorted(r)) if r else "not run")
    rows.append("| %s | %s | %s |" % (n, m["what_it_breaks"].replace("|", "/"), by))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
a, b = "<!-- seeds -->", "<!-- /seeds -->"
t = a + "\n" + "\n".join(rows) + "\n" + b
s = s.replace("SEED-TABLE", t) if "SEED-TABLE" in s else re.sub(re.escape(a) + ".*" + re.escape(b), lambda m: t, s, flags=re.S)
open(p, "w").write(s)
