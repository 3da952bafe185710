#!/opt/venv/bin/python
"""replay.py FILE: re-run, without the explorer, the one case a VIOLATION line points to."""
import os, sys
sys.argv[0] = os.path.abspath(sys.argv[0])
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import json
from mc import run as _run
from mc import core
d = json.load(open(sys.argv[1]))
module = _run.load(d['property'])
for space in module.spaces(d.get('tier', 'quick')):
    if space.name == d['space']:
        for k in range(2):
            msg = core.run_case(space, d['case'], core.Ctx())
            print('run {}: {}'.format(k + 1, msg or 'holds'))
        sys.exit(1 if msg else 0)
sys.exit('no such space')
