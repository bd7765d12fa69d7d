#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (documentation only; no check reads it)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | manifests only with | caught by |", "|-----|---------------------|-----------|"]
for d in sorted(glob.glob(here + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d[:-1]), m["needs"].replace("|", "\\|"), ", ".join(m.get("caught_by", [m["property"]]))))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!--PLANTED-->.*?<!--/PLANTED-->", lambda _: "<!--PLANTED-->\n" + "\n".join(rows) + "\n<!--/PLANTED-->", s, flags=re.S)
open(p, "w").write(s)
