#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (from
defs.py, checks.py and the harnesses), tools/design_tail.md."""
import os, re, sys, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import defs, checks
from design_how import HOW
out = open(os.path.join(V, 'tools/design_head.md')).read()
seeded = {}
for d in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    seeded.setdefault(m['property'], []).append((d.split('/')[-2], m['needs']))
fixed = {}
for l in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m[1], []).append((m[2], m[3].strip()))
for p in sorted(defs.PROPS, key=lambda p: p['pid']):
    pid = p['pid']
    c = checks.CHECKS[pid]
    out += '\n### %s  %s\n\n' % (pid, p['title'])
    out += p['statement'] + '\n\n'
    out += '- Decided by: %s.\n' % p['technique']
    out += '- How: %s\n' % HOW[pid]
    out += '- Why tests do not reach it: %s\n' % p['why']
    subs = []
    for h in c['harness']:
        for m in re.finditer(r'VP_PROP\((\w+),\s*(\d+),\s*(\d+),\s*"([^"]*)"', open(os.path.join(V, h)).read()):
            subs.append('%s (%s / %s; non-trivial: %s)' % (m[1], m[2], m[3], m[4]))
    v = [x.get('name', 'base') for x in c.get('variants', [{}])]
    if pid in ('P06', 'P07'):
        subs = [s for s in subs if ('hessian' in s) == (pid == 'P07')]
    if pid in ('P09', 'P10'):
        subs = [s for s in subs if (s.startswith('protocol') or s.startswith('steps')) == (pid == 'P10')]
    out += '- Generated searches (cases quick / thorough): %s.%s\n' % ('; '.join(subs), ' Built as: %s.' % ', '.join(v) if len(v) > 1 else '')
    out += '- Bounds: %s.\n' % p['note']
    for h, t in fixed.get(pid, []):
        out += '- Defect found and repaired: %s (%s).\n' % (t, h)
    for i, n in seeded.get(pid, []):
        out += '- Planted change caught: `%s` (needs %s).\n' % (i, n.rstrip('.'))
out += '\n' + open(os.path.join(V, 'tools/design_tail.md')).read()
open(os.path.join(V, 'DESIGN.md'), 'w').write(out)
print('DESIGN.md', len(out.split()), 'words')
