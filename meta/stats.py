#!/usr/bin/env python3
"""Copies the figures of the last runs from evidence/ into meta/stats.json (for DESIGN.md)."""
import glob
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(ROOT, 'meta/stats.json')
s = json.load(open(f)) if os.path.exists(f) else {}
for e in sorted(glob.glob(os.path.join(ROOT, 'evidence/C??.json'))):
    d = json.load(open(e))
    x = s.setdefault(d['property'], {})
    x['assumptions'] = d['assumptions']
    x[d['tier']] = dict(traces=d['coverage']['traces_validated_against_impl'], transitions=d['coverage']['transitions'], parts=len(d['coverage']['parts']), wall=d['wall_s'])
json.dump(s, open(f, 'w'), indent=1, sort_keys=True)
