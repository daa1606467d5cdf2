#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE

ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    mods = ', '.join(dict.fromkeys(m['module'] for m in p.get('mc', [])))
    checks.append(dict(
        property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
        technique=p.get('technique', 'TLA+ specification model checked with TLC (%s); its cases and random ones replayed on the '
                        'code, every observation judged by TLC with the same specification (%s)' % (mods, p['trace'])),
        level='model_checking',
        level_note=p.get('note', 'The laws are checked exhaustively on the bounded model; the code is bound by conformance of every '
                         'recorded observation, so the assurance on the code is that of the cases executed. Trusts TLC, the '
                         'drivers and the specification.')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()],
         notes='No hook is needed in /repo: the observations are made through the public API. fix: commits are listed in '
               'KNOWN_FINDINGS.txt.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
left = [i for i in ids if i not in PROPS and i not in NOT_APPLICABLE]
assert not left, left
