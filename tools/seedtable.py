#!/usr/bin/env python3
"""Prints the table of planted changes for DESIGN.md."""
import glob
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| planted change | property | needs | breaks |\n|---|---|---|---|')
rows = []
for d in glob.glob(root + '/seeded/*/meta.json'):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['needs'], m['what_it_breaks']))
for p, i, n, w in sorted(rows):
    print('| %s | %s | %s | %s |' % (i, p, n, w))
