"""Rewrite the table of planted changes in DESIGN.md (never used by a check)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in os.listdir(os.path.join(HERE, "seeded")):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | `%s` | %s |" % (m["property"], d, m["needs"]))
s = open(os.path.join(HERE, "DESIGN.md")).read()
a, b = s.index("<!-- seeded:begin -->"), s.index("<!-- seeded:end -->")
table = "<!-- seeded:begin -->\nEach is caught by the quick check of its property.\n\n| property | change | needs |\n|---|---|---|\n" + "\n".join(sorted(rows)) + "\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write(s[:a] + table + s[b:])
