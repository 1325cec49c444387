#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for b in sorted(os.listdir(ROOT + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (ROOT, b)))
    rows.append("| %s | %s | %s |" % (b, m["needs"].replace("|", "\\|"), m.get("caught_by", m["property"])))
p = ROOT + "/DESIGN.md"
s = open(p).read()
new = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("SEEDED_TABLE", new) if "SEEDED_TABLE" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: new, s, flags=re.S)
open(p, "w").write(s)
