#!/usr/bin/env python3
"""Rewrites section 6 of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HISTORY = {
    "H01-long": "missed at first: data was too short", "P02-long": "missed at first: keys had at most 16 bytes",
    "B01-deep": "found by trees of any size only", "B02-deep": "found by trees of any size only",
    "T01-memo": "missed at first: trees are now also worked on in step",
    "T02-orphan": "missed at first: operations are now nested in one another at every call",
    "M03-cached": "missed at first: the nodes of a retried root are now looked for",
    "S05-seen": "missed at first: branches now also start with trees that have been through the same operations",
    "T02-rollback": "missed at first, as T02-orphan", "T02-undo": "missed at first, as T02-orphan",
}
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m, b = json.load(open(f)), os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (b, m["what_it_breaks"], m["needs"], HISTORY.get(b, m.get("note", ""))))
text = """## 6. Planted bugs

Each is a change to /repo's sources that passes all existing tests and comes with a demonstration (`seeded/`). The quick
check of the property it is named after (the part before the dash) rejects it: `tools/catch.sh`. %d in all:

| bug | breaks | needs | note |
|---|---|---|---|
%s
""" % (len(rows), "\n".join(rows))
extra = open(os.path.join(V, "tools", "design-tail.md")).read()
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split("## 6. Planted bugs")[0].rstrip() + "\n\n" + text + "\n" + extra
open(p, "w").write(s)
