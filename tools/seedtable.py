#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (caught_by: tools/tryseeds.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(V, "DESIGN.md")
head = open(path, encoding="utf-8").read().split("## Planted bugs\n")[0]
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json"), encoding="utf-8"))
    rows.append("| %s | %s | %s |" % (d, m["needs"].replace("|", "\\|").replace("\n", " "), m["property"]))
out = head + """## Planted bugs

%d changes in `seeded/`, each written from a property's text, validated by its demo on the clean and the changed tree and by the
repository's 40 tests (`tools/plant.py`). The last column is the check that catches it; all are caught by the quick tier with
`VERIF_SEED=1` (`tools/tryseeds.py`), several only after the check had been strengthened (repeated conditions in C04, NULL-heavy tables in
C05, texts of fractions in C17, two-part interval texts in C19, exit status of an interrupt in C22).

| change | needs | caught by |
|---|---|---|
%s
""" % (len(rows), "\n".join(rows))
open(path, "w", encoding="utf-8").write(out)
