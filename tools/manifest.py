#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from properties.jsonl and the checks present in mc/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
mods = {f.split('_')[0]: f for f in os.listdir(os.path.join(V, 'mc', 'checks')) if f[0] == 'C' and f.endswith('.py')}
TECH = {
    'default': 'bounded exhaustive exploration of the real code: every configuration / operation history within the stated bounds, each step compared with an independent reference model',
    'C07': 'stateless model checking of the real code: every thread interleaving at bytecode granularity up to a preemption bound, under a controlled scheduler',
}
NOTE = {
    'default': 'Exhaustive within the alphabets and depths recorded in the evidence file; trusts the reference model in the check and says nothing about values outside the alphabets.',
    'C07': 'Exhaustive up to the preemption bound recorded in the evidence file, at Python bytecode granularity under the GIL; trusts the scheduler and lock shims.',
}
checks, na = [], []
REASONS = {}
for p in props:
    pid = p['id']
    if pid in mods:
        cmd = '/opt/venv/bin/python mc/run.py ' + pid
        checks.append(dict(property=pid, quick_cmd=cmd + ' quick', thorough_cmd=cmd + ' thorough',
                           technique=TECH.get(pid, TECH['default']), level='model_checking',
                           level_note=NOTE.get(pid, NOTE['default'])))
    else:
        na.append(dict(property=pid, reason=REASONS.get(pid, 'check not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python tools/setup.py', checks=checks, not_applicable=na,
         notes='Every check explores the real code of /repo in process; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
