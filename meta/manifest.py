#!/usr/bin/env python3
"""Writes MANIFEST.json: one entry per property that has a check module."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'meta'))
from properties import P  # noqa: E402

ENUM = ('model checking by exhaustive bounded enumeration: every case of a finite input/state space is executed on the real code '
        'and compared with an independent reference model of the standard')
SCHED = ('stateless model checking of the real code: a controlled scheduler with virtual time runs every thread interleaving within a '
         'deviation (delay) bound and every environment choice, against an independent model of the modem')
HIST = ('explicit-state model checking bound to the code: every operation/event history up to a depth is executed on the real code and '
        'compared step by step with a reference model')
TECH = dict.fromkeys(['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'], ENUM)
TECH.update(dict.fromkeys(['C08', 'C09', 'C10', 'C11', 'C12', 'C14', 'C15', 'C16', 'C18', 'C20', 'C22'], SCHED))
TECH.update(dict.fromkeys(['C13', 'C17', 'C19', 'C21', 'C23', 'C24', 'C25', 'C26', 'C27'], HIST))

if __name__ == '__main__':
    checks, na = [], []
    for p in P:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                               technique=TECH[i], level='model_checking',
                               level_note='exhaustive within the bounds listed in DESIGN.md and in the evidence file; beyond them nothing is claimed'))
        else:
            na.append(dict(property=i, reason='no check built yet'))
    m = dict(version=1, setup_cmd='python3 -c "import sys; sys.exit(0)"', checks=checks, not_applicable=na,
             notes='All checks import the library from /repo (override: VERIF_REPO) at run time; nothing is built or cached. '
                   'No hooks were added to /repo; threading, time and serial are replaced through sys.modules.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
