#!/usr/bin/env python3
"""Rewrites section 3 of DESIGN.md from seeded/*/meta.json; an optional "note" in meta.json says what the bug taught."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "## 3. Planted bugs and the checks that catch them\n"
s = open(V + "/DESIGN.md").read(); s = s.split(H)[0].rstrip() + "\n\n"
s += H + """
Each was written from a property's text and the code, validated with `tools/seedtest` (applies, builds, the stable tests pass, the demonstration
fails with it and passes without it) and run against the property's quick check. All are caught; the last column says where the first version of
the check missed it and what was added. Besides these, `tools/mutate.py` applies one-line mutations (deleted statements and locks, negated
conditions, `while` to `if`, broadcast to signal, ...) to a copy of the sources and lists the ones no mapped check reports; its survivors were
triaged one by one.

| bug | check | what it breaks | needs | missed at first |
|---|---|---|---|---|
"""
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json")); s += f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('note', '')} |\n"
open(V + "/DESIGN.md", "w").write(s)
