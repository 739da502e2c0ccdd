#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from engine/catalog.py (run by hand after editing the catalogue)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import catalog  # noqa: E402

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in catalog.PROPERTIES:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                              observe_at=p.get('observe', []), hook_needed=None))
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in catalog.PROPERTIES:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
    else:
        checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s' % p['id'], thorough_cmd='python3 check.py %s' % p['id'],
                           technique=p['technique'], level='other', level_note=p['note']))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks: the checks read the MIR that rustc emits for the unmodified crate. Known and fixed findings: known_findings.txt.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
import jsonschema
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), S)
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
