#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from rules/props.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from rules.props import ALL, NA   # noqa

TECH = 'static analysis: gated value-graph congruence (global value numbering with random interpretation) against reference definitions, plus syntax-tree extraction rules'
NOTE = ('Every listed function of /repo is translated from its current source (Python ast; clang AST for C++) to a gated value graph over symbolic inputs and heap and compared, '
        'observable by observable, with a reference definition; nothing of /repo runs. An equality is certified by random interpretation of the graphs '
        '(one-sided error: a reported difference is real with respect to the graphs; a missed difference has vanishing probability per valuation and needs an uncovered gate). '
        'Trusted: the front ends, the reference definitions, floating-point reassociation is ignored (real arithmetic), external libraries (numpy, dolfin) are opaque functions, '
        'distinct receivers do not alias. A function outside the analysable subset is reported undecided in the evidence.')
with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
    for p in ALL:
        fh.write(json.dumps({k: v for k, v in p.items() if k not in ('group', 'technique', 'note')}) + '\n')
checks = []
for p in ALL:
    if 'group' not in p:
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=p.get('technique', TECH), level='other', level_note=p.get('note', NOTE)))
m = dict(version=1, setup_cmd='python3 tools/setup_check.py', checks=checks, not_applicable=NA)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(NA), 'not applicable')
