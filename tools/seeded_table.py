#!/usr/bin/env python3
"""Rewrites section 4 of DESIGN.md from seeded/*/meta.json (caught_by is written by hand or by the catcher)."""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["what_it_breaks"], m["needs"], m.get("caught_by", m["property"])))
d = open(V + "/DESIGN.md").read()
mark = "## 4. Seeded bugs"
head = d.split(mark)[0].rstrip() + "\n\n" + mark + """

Each was written from the property's text and the code; all build and pass the 26 stable tests, and each has a demonstration.
Column "caught by": checks that exit 1 with their VIOLATION line (at least those; not every other check was run against each).

| id | breaks | manifests only with | caught by |
|---|---|---|---|
"""
tail = ""
if mark in d and "\n## 5." in d:
    tail = "\n\n## 5." + d.split("\n## 5.", 1)[1]
open(V + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n" + tail)
