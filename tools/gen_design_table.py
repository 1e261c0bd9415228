#!/usr/bin/env python3
"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {
 "C02-b": "raw white space in attribute values",
 "C02-c": "wider trees",
 "C10-a": "siblings of mixed kinds before and after the assembled element",
 "C07-d": "`gen::grow`: one part of the tree blown up",
 "C12-d": "`gen::grow`",
 "C12-e": "by-namespace and by-prefix queries against filters on the accessors, with undeclared prefixes",
 "C14-e": "sizes up to 8 MiB through every path (`big`)",
 "C15-f": "the same edits on an original inside a tree and on its clone",
}
try:
    missed.update(json.load(open(os.path.join(root, "tools", "missed.json"))))
except FileNotFoundError:
    pass
rows = ["Each change was applied to a clean tree, checked with the quick command of its property, and undone. All are caught by the",
        "check named in the first column; the last column says what was added when the check first missed it.", "",
        "| bug | breaks | first missed: added |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    cell = lambda x: re.sub(r"\s+", " ", x).replace("|", "\\|")
    rows.append(f"| {d} | {cell(m['what_it_breaks'])} ({cell(m['needs'])}) | {missed.get(d, '')} |")
p = os.path.join(root, "DESIGN.md")
t = open(p).read()
i = t.index("## Planted bugs")
open(p, "w").write(t[:i] + "## Planted bugs (`seeded/`)\n\n" + "\n".join(rows) + "\n")
