#!/usr/bin/env python3
"""Prints the table of section 8 of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
print('| id | check | needs in order to manifest | then |\n|---|---|---|---|')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    c = lambda t: t.replace('|', '\\|').replace('\n', ' ')
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |")
