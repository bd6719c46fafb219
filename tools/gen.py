#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (development tool; no check runs it)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from props import PROPS, NA
with open(H + '/properties.jsonl', 'w') as f:
    for p in PROPS + [n[0] for n in NA]:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
man = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); from sva import driver, rules"',
           checks=[dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'],
                        thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                        evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='other',
                        level_note=p['note']) for p in PROPS],
           not_applicable=[dict(property=n[0]['id'], reason=n[1]) for n in NA],
           notes='All checks inspect /repo\'s working tree: they compile its sources to LLVM IR and interpret the IR abstractly (no code of the '
                 'repository is run, no path is handed to a solver), or match rules over the IR, the syntax tree or the source text. See DESIGN.md.')
json.dump(man, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
