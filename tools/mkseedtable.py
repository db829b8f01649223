#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| seed | caught by | needs | breaks |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    c = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    rows.append(f"| {n} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
p = os.path.join(root, "DESIGN.md"); s = open(p).read()
b, e = "<!-- seeds begin -->", "<!-- seeds end -->"
new = b + "\n" + "\n".join(rows) + "\n" + e
s = s.replace("SEEDTABLE", new) if "SEEDTABLE" in s else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: new, s, flags=re.S)
open(p, "w").write(s)
