"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug (caught by the check it is named after) | what it breaks | needs |",
        "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)),
                                     m["what_it_breaks"].replace("|", "/"),
                                     m["needs"].replace("|", "/")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
open(p, "w").write(s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:])
