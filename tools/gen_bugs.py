#!/usr/bin/env python3
"""Writes the table of planted bugs (from seeded/*/meta.json) between the markers of DESIGN.md."""
import collections, glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = collections.defaultdict(list)
for meta in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    j = json.load(open(meta))
    name = os.path.basename(os.path.dirname(meta))
    rows[j["property"]].append((name, j["needs"]))
out = ["| check | planted bug | what it needs in order to show |", "|-|-|-|"]
for prop in sorted(rows):
    for name, needs in rows[prop]:
        needs = re.sub(r"\s+", " ", needs).replace("|", "\\|")
        out.append("| %s | `%s` | %s |" % (prop, name, needs))
path = ROOT + "/DESIGN.md"
text = open(path).read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
i, j = text.index(a) + len(a), text.index(b)
open(path, "w").write(text[:i] + "\n".join(out) + "\n" + text[j:])
print(sum(map(len, rows.values())), "bugs")
