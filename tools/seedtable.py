#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
t = "<!-- seeds -->\n| bug | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = here + "/DESIGN.md"
s = open(p).read().replace("SEEDTABLE", "<!-- seeds -->\n<!-- /seeds -->")
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
