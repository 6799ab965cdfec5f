#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from table.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import table

NOTE = ('Bounded exhaustive: {bounds}. Every explored behaviour is executed on '
        'the real code of /repo, so there is no model-to-code gap; nothing is '
        'claimed beyond the stated alphabets and depths. Trusted: the CPython '
        'interpreter, the reference model in checks/{mod}.py and mc/.')

lines, checks, na = [], [], []
for p in table.P:
    assert len(p['title']) <= 80, p['id']
    lines.append(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['text']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w}
                                  for n, w in p['mechanism']],
                    'observe_at': p['observe'] or ['public Python API'],
                    'hook_needed': None},
    }))
    mod = p['id'].lower()
    path = os.path.join(ROOT, 'checks', mod + '.py')
    if not os.path.exists(path):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    space = {}
    text = open(path).read()
    start = text.index('BOUNDS = ')
    import ast
    for node in ast.parse(text).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'BOUNDS':
            space['b'] = ast.literal_eval(node.value)
    cmd = '/opt/venv/bin/python run.py %s --tier ' % p['id']
    checks.append({
        'property': p['id'], 'quick_cmd': cmd + 'quick',
        'thorough_cmd': cmd + 'thorough',
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'model checking: ' + p['technique'],
        'level': 'model_checking',
        'level_note': NOTE.format(bounds=space['b'], mod=mod),
    })
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fid:
    fid.write('\n'.join(lines) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fid:
    json.dump({
        'version': 1,
        'setup_cmd': '/opt/venv/bin/python -c "import properties, numpy, vectormath, png, traitlets"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks: every check drives the public API of the real code. '
                 'See DESIGN.md.',
    }, fid, indent=1)
    fid.write('\n')
print(len(lines), 'properties', len(checks), 'checks')
