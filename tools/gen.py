#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from defs.py and checks.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import checks, defs

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in defs.PROPS:
        assert len(p['title']) <= 80, (p['pid'], len(p['title']))
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        for x in p['files']:
            if not os.path.exists(os.path.join('/repo', x)):
                sys.exit('%s: no file %s' % (p['pid'], x))
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['pid'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['quant']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
ids = [p['pid'] for p in defs.PROPS]
assert len(set(ids)) == len(ids)
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'Every check compiles what it needs from /repo\'s working tree (out of tree, in /verif/build) and drives it with generated cases; run.py has the command line, DESIGN.md the method. No hooks in /repo.'}
for p in defs.PROPS:
    i = p['pid']
    if i in defs.NOT_APPLICABLE:
        m['not_applicable'].append({'property': i, 'reason': defs.NOT_APPLICABLE[i]})
        continue
    assert i in checks.CHECKS, i
    m['checks'].append({'property': i, 'quick_cmd': 'python3 run.py ' + i,
                        'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
                        'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    print('not validated (no jsonschema)')
print(len(ids), 'properties,', len(m['checks']), 'checks')
