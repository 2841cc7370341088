#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks, and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from properties import P
from registry import CHECKS

NOTES = ('Specifications are TLA+ (spec/), checked by TLC with exact big-integer arithmetic supplied by Java operator overrides (java/). '
         'Harnesses (harness/) include the headers of /repo and record traces; tools/check.py runs everything. See DESIGN.md.')
checks = []
for p in P:
    c = CHECKS.get(p['id'])
    if not c:
        continue
    cmd = 'python3 tools/check.py ' + p['id']
    checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % p['id'],
                       technique=c.get('technique', 'TLA+ model checking with TLC, and TLC validation of traces recorded from the code'),
                       level='model_checking', level_note=c['note']))
na = [dict(property=p['id'], reason='no check has been built yet') for p in P if p['id'] not in CHECKS]
root = os.path.dirname(HERE)
with open(root + '/MANIFEST.json', 'w') as f:
    json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na, notes=NOTES), f, indent=1)
    f.write('\n')
os.system('python3 %s/properties.py' % HERE)

# spec/BigDef.tla: the definitions of spec/lib/Big.tla without their overrides
big = open(root + '/spec/lib/Big.tla').read()
big = big.replace('MODULE Big ------', 'MODULE BigDef ---')
i, j, k = big.index('(* Integer arithmetic'), big.index('EXTENDS'), big.index('\\* Decoding of the trace notation')
big = (big[:i] + '(* The definitions of Big.tla under another name, written by                    *)\n'
       '(* tools/manifest.py.                                                           *)\n' + big[j:k].rstrip() + '\n' + '=' * 77 + '\n')
with open(root + '/spec/BigDef.tla', 'w') as f:
    f.write(big)
