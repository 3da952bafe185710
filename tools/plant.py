#!/usr/bin/env python3
"""plant.py SEEDS.py [id ...]: build and verify planted bugs (development tool).

SEEDS.py defines SEEDS: dict id -> dict(property, edits=[(file, old, new)], demo=python source, needs, what_it_breaks).
Each is verified in a scratch copy of /repo: original lines only, the stable tests pass, the demonstration passes
without and fails with the change; then /verif/seeded/<id>/ is written and the property's check is run on the copy."""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', QT_QPA_PLATFORM='offscreen', MPLBACKEND='Agg')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def plant(sid, seed):
    tmp = tempfile.mkdtemp(prefix='seed-', dir='/tmp')
    try:
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        env = dict(ENV, PYTHONPATH=repo)
        demo = tmp + '/demo'
        os.mkdir(demo)
        open(demo + '/demo.py', 'w').write(seed['demo'].lstrip())
        open(demo + '/demo.sh', 'w').write('#!/bin/bash\n# run with cwd /repo: exit 0 when the property holds\nexport PYTHONDONTWRITEBYTECODE=1 QT_QPA_PLATFORM=offscreen MPLBACKEND=Agg\n'
                                           'PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        r = sh(['bash', demo + '/demo.sh'], cwd=repo, env=ENV)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stdout[-400:]
        for f, old, new in seed['edits']:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return '{} occurrences in {} of {!r}'.format(s.count(old), f, old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff', '--'] + sorted({e[0] for e in seed['edits']}), cwd=repo).stdout
        # the removed lines belong to the original commit
        root = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=repo).stdout.strip()[:7]
        for f in {e[0] for e in seed['edits']}:
            blame = sh(['git', 'blame', '--abbrev=6', '-s', 'HEAD', '--', f], cwd=repo).stdout.splitlines()
            hunks = sh(['git', 'diff', '-U0', '--', f], cwd=repo).stdout
            touched = 0
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', hunks, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for i in range(a, a + n):
                    who = blame[i-1].split()[0].lstrip('^')
                    if root.startswith(who[:6]):
                        touched += 1
                    else:
                        print('   ', sid, 'touches a line of a fix:', blame[i-1][:100])
            if not touched:
                return 'no original line touched in ' + f
        r = sh([PY, '-m', 'pytest', 'unit-test', '-q', '-p', 'no:cacheprovider', '--continue-on-collection-errors', '-o', 'junit_family=xunit2', '--junitxml=' + tmp + '/r.xml'], cwd=repo, env=env)
        sh([PY, '/opt/vp/results.py', tmp + '/o.json', 'junit:' + tmp + '/*.xml'])
        o = json.load(open(tmp + '/o.json'))
        passed = set(o.get('passed') or [k for k, v in o.items() if v in ('passed', 'pass')])
        if stable() - passed:
            return 'tests fail: {}'.format(stable() - passed)
        r = sh(['bash', demo + '/demo.sh'], cwd=repo, env=ENV)
        if not r.returncode:
            return 'demo passes with the change'
        print('   ', sid, 'demo:', r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.returncode)
        out = os.path.join(V, 'seeded', sid)
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(demo, f), out)
        json.dump({k: seed[k] for k in ('property', 'needs', 'what_it_breaks')}, open(out + '/meta.json', 'w'), indent=1)
        r = sh([PY, '-W', 'ignore', 'mc/run.py', seed['property'], 'quick'], cwd=V, env=dict(ENV, PATRO_REPO=repo))
        line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('   [')]
        path = V + '/tools/detection.json'
        det = json.load(open(path)) if os.path.exists(path) else {}
        now = 'caught ({})'.format(', '.join(sorted(set(re.findall(r'^   \[([\w-]+)\]', r.stdout, re.M))))) if r.returncode == 1 else 'missed'
        det.setdefault(sid, {}).setdefault('first', now.split(' (')[0])
        det[sid]['now'] = now
        json.dump(det, open(path, 'w'), indent=1, sort_keys=True)
        return ('CAUGHT ' if r.returncode == 1 else 'MISSED exit {} '.format(r.returncode)) + (line[1][:150] if len(line) > 1 else r.stdout[-200:])
    finally:
        shutil.rmtree(tmp)

def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    for sid, seed in seeds.items():
        if len(sys.argv) > 2 and sid not in sys.argv[2:]:
            continue
        print(sid, seed['property'], plant(sid, seed), flush=True)

if __name__ == '__main__':
    main()
