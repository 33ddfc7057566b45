#!/usr/bin/env python3
"""Fills the generated tables of DESIGN.md: contracts, planted bugs (results of tools/try_seeds.py in tools/caught.txt), defects."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
import importlib
from pydv import contract as C
for f in sorted(glob.glob(HERE + "/contracts/*.py")):
    n = os.path.basename(f)[:-3]
    if n != "__init__":
        importlib.import_module("contracts." + n)
t = open(HERE + "/DESIGN.md").read()


def put(mark, text):
    global t
    a, b = "<!-- %s:begin -->" % mark, "<!-- %s:end -->" % mark
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + text.rstrip() + "\n" + t[j:]


rows = ["| contract | properties | function | decided by |", "|---|---|---|---|"]
for c in C.ORDER:
    rows.append("| %s | %s | `%s` | %s |" % (c.id, ", ".join(sorted(c.props)), c.target.replace("yaocptool.", ""), "proof" if c.bounded is None else "bounded, %d executions: %s" % (c.runs, c.bounded)))
put("contracts", "\n".join(rows))
caught = {}
p = HERE + "/tools/caught.txt"
if os.path.exists(p):
    for l in open(p):
        m = re.match(r"(\S+)\s+(C\d+) rc=\d+ (caught \(no input\)|caught|MISSED)", l)
        if m:
            caught[m.group(1)] = m.group(3)
rows = ["| planted bug | property | what it breaks | its check |", "|---|---|---|---|"]
for d in sorted(glob.glob(HERE + "/seeded/*/")):
    i = os.path.basename(d[:-1])
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], caught.get(i, "-")))
put("seeds", "\n".join(rows))
k = json.load(open(HERE + "/known_findings.json"))
put("fixed", "\n".join("* " + (x if isinstance(x, str) else str(x)).replace("fixed: property=", "") for x in k["fixed"]))
open(HERE + "/DESIGN.md", "w").write(t)
