#!/usr/bin/env python3
"""The table of planted bugs in DESIGN.md, from seeded/*/meta.json."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = json.load(open(ROOT + "/tools/caught.json"))
rows = []
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    b, m = f.split("/")[-2], json.load(open(f))
    rows.append("| %s | %s | %s |" % (b, m["property"], HOW.get(b, "")))
d = open(ROOT + "/DESIGN.md").read()
d = re.sub(r"(\| bug \| property \| caught by \|\n\|---\|---\|---\|\n)(?:\|.*\n|@BUGS@\n)*", lambda m: m.group(1) + "\n".join(rows) + "\n", d)
open(ROOT + "/DESIGN.md", "w").write(d)
