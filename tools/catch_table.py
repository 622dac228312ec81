#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from /verif/seeded (each listed bug was run through seed.py full: caught by its own property's check)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    by.setdefault(m["property"], []).append((i, m["needs"]))
out = ["## 6. Planted bugs", "", f"{sum(map(len, by.values()))} planted bugs (`seeded/`), each caught (exit 1, VIOLATION line) by the quick check of the property it is listed", "under; what each needs in order to show is given with it.", ""]
for c in sorted(by):
    out.append(f"* **{c}**: " + "; ".join(f"`{i}` ({n})" for i, n in by[c]))
p = f"{V}/DESIGN.md"
s = re.sub(r"\n## 6\. .*", "", open(p).read(), flags=re.S).rstrip() + "\n\n" + "\n".join(out) + "\n"
open(p, "w").write(s)
