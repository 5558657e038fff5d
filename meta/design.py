#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_props.py, properties.py, the evidence (assumptions, parts, cost), catches.json and design_tail.md."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'meta'))
from properties import P  # noqa: E402
from design_props import D  # noqa: E402


def rd(n):
    return open(os.path.join(ROOT, n), encoding='utf-8').read()


out = [rd('meta/design_head.md'), '## 2. The properties\n']
catches = json.loads(rd('meta/catches.json')) if os.path.exists(os.path.join(ROOT, 'meta/catches.json')) else {}
stats = json.loads(rd('meta/stats.json')) if os.path.exists(os.path.join(ROOT, 'meta/stats.json')) else {}
for p in P:
    i = p['id']
    spec, enum, oracle, bounds, why = D[i]
    out.append('### %s %s\n' % (i, p['title']))
    out.append('* Specified: %s.' % spec)
    out.append('* Enumerated: %s.' % enum)
    out.append('* Oracle: %s.' % oracle)
    if bounds:
        out.append('* Bounds: %s.' % bounds)
    if why:
        out.append('* Note: %s.' % why)
    out.append('* Beyond the tests: %s' % ' '.join(p['why_tests_cant'].split()) if True else '')
    s = stats.get(i)
    if s:
        for a in s['assumptions']:
            out.append('* Assumed: %s.' % a)
        for t in ('quick', 'thorough'):
            if t in s:
                out.append('* %s: %d executions, %d transitions, %d parts, %.0f s.' % (t.capitalize(), s[t]['traces'], s[t]['transitions'], s[t]['parts'], s[t]['wall']))
    c = catches.get(i)
    if c:
        out.append('* Planted bugs: %s.' % '; '.join('%s (%s)' % (k, v) for k, v in sorted(c.items())))
    out.append('')
out.append(rd('meta/design_bugs.md') if os.path.exists(os.path.join(ROOT, 'meta/design_bugs.md')) else '')
out.append(rd('meta/design_tail.md'))
open(os.path.join(ROOT, 'DESIGN.md'), 'w', encoding='utf-8').write('\n'.join(x for x in out if x is not None))
