#!/usr/bin/env python3
"""Rewrites the section on planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = """## Planted bugs

Each was written from the statement of its property and the code, kept after its demonstration was confirmed in a scratch copy, and run against
the quick check of its property. `tools/mkplanted.py` writes this table. All of them are caught by the quick check of the property in
the second column, unless the last column says otherwise.

| Bug | Property | Needs | Caught |
|---|---|---|---|
"""
MISSED = set()
rows = []
for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {' '.join(m['needs'].split()).replace('|', '/')} | {'no' if i in MISSED else 'yes'} |\n")
p = os.path.join(VERIF, "DESIGN.md")
s = open(p).read()
i = s.index("@@") if "@@" in s else s.index("## Planted bugs")
open(p, "w").write(s[:i] + HEAD + "".join(rows))
