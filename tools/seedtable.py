#!/usr/bin/env python3
"""rewrites section 5 of DESIGN.md from seeded/*/meta.json"""
import os, json, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(H + "/DESIGN.md").read()
d = re.split(r"\n(?:SEEDTABLE|## 5\. )", d)[0].rstrip()
o = ["", "", "## 5. Planted bugs", "",
 "Each was written from the text of a property and the code, and confirmed (`tools/demo.sh`, `tools/tryseed.sh ID`): the demonstration",
 "passes without and fails with it, the repository's tests pass with it. All are caught by the check of the named property.",
 "Missed at first, and what was added: see the last column.", "",
 "| seed | check | needs | breaks | |", "|---|---|---|---|---|"]
for s in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(H + "/seeded/" + s + "/meta.json"))
    e = lambda t: t.replace("|", "/")
    n = os.path.join(H, "seeded", s, "note.txt")
    o.append("| %s | %s | %s | %s | %s |" % (s, m["property"], e(m["needs"]), e(m["what_it_breaks"]), e(open(n).read().strip()) if os.path.exists(n) else ""))
open(H + "/DESIGN.md", "w").write(d + "\n".join(o) + "\n")
