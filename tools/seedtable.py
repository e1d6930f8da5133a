#!/usr/bin/env python3
"""Prints the DESIGN.md table of planted bugs."""
import json,glob,os
for d in sorted(glob.glob('/verif/seeded/*/'),key=lambda d:(json.load(open(d+'meta.json'))['property'],d)):
    m=json.load(open(d+'meta.json'))
    print(f"| {m['property']} | {os.path.basename(d[:-1])} | {m['what_it_breaks']} | {m['needs']} |")
