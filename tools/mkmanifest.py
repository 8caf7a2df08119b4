#!/usr/bin/env python3
"""Writes MANIFEST.json from vk/plan.py and properties.jsonl."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'vk'))
sys.dont_write_bytecode = True
import plan   # noqa: E402

TRACE = {'der': 'TraceDer', 'cert': 'TraceX509', 'ext': 'TraceX509', 'name': 'TraceX509', 'cli': 'TraceCli'}
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    p = plan.P[pid]
    models = sorted({plan.FAMILIES[f] for f in p['families']})
    invs = sorted({i for m in models for i in (plan.MODULES[m]['inv'] + ' ' + plan.MODULES[m]['prop']).split()})
    checks.append({
        'property': pid,
        'quick_cmd': 'python3 vk/vk.py check %s --tier quick' % pid,
        'thorough_cmd': 'python3 vk/vk.py check %s --tier thorough' % pid,
        'technique': 'TLA+ specification model checked with TLC; every input it enumerates and seeded inputs are run through the real code and the recordings validated against it by TLC',
        'level': 'model_checking',
        'level_note': 'TLC checks %s on every input of the families of %s within their constants, and that each recording of the real code on those inputs '
                      'and on seeded ones is a behaviour of the specification. Trusts TLC and the recording harness; inputs outside the enumerated families are sampled.'
                      % (', '.join(invs), ', '.join(models))})
json.dump({'version': 1, 'setup_cmd': 'python3 vk/vk.py setup', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks are needed: everything observed is public. See DESIGN.md.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
