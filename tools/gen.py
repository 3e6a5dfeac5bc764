#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=p.get('state', []),
                         mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
man = dict(
    version=1,
    setup_cmd='python3 -c "import ast, json"',
    checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                 evidence_file='evidence/%s.json' % p['id'],
                 technique=p.get('technique', 'abstract interpretation of the source over a value-numbering (expression graph) domain, compared with a written rule'),
                 level='other', level_note=p.get('note', 'Static, for all inputs of the stated shapes; sound up to the library models in engine/models.py and real-number arithmetic. Constructs outside the model are reported as UNDECIDED, not as holding.'))
            for p in PROPS],
    not_applicable=[dict(property=p['id'], reason=p['reason']) for p in NA],
    notes='Checks read only the source under /repo/glmtools and /repo/examples/grid/make_GLM_grids.py; nothing of it is imported or run. Known findings: known-findings.txt.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(PROPS), 'claimed', len(NA), 'not applicable')
