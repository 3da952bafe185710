"""Bounded exhaustive exploration core.

A check module defines PROPERTY and spaces(tier), which returns Space objects.  A Space is a finite
set of cases, enumerated completely (never sampled); each case is one configuration or one
history of operations executed on the real code of /repo, compared step by step with an oracle.

Context object passed to every case:
    ctx.step(n)      n implementation operations (transitions) were executed
    ctx.state(key)   canonical observed/constructed state (deduplicated by hash for the count)
    ctx.check(cond, msg), ctx.eq(a, b, msg), ctx.close(a, b, msg)  oracle comparisons
"""

import contextlib
import hashlib
import io
import json
import math
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PATRO_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
KNOWN_PATH = os.path.join(VERIF, 'known_findings.txt')

####################################################################################################

class Violation(Exception):
    pass

class HarnessError(Exception):
    pass

class CaseTimeout(BaseException):
    pass

####################################################################################################

class Ctx:

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.outcomes = set()

    def step(self, n=1):
        self.transitions += n

    def state(self, key):
        self.states.add(hash_key(key))

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash_key(key))

    def check(self, cond, msg='', *args):
        self.transitions += 1
        if not cond:
            raise Violation(fmt(msg, *args))

    def eq(self, got, want, msg=''):
        self.transitions += 1
        if not (type_free_eq(got, want)):
            raise Violation('{}: got {!r}, expected {!r}'.format(msg, got, want))

    def close(self, got, want, msg='', tol=1e-7):
        self.transitions += 1
        if not close(got, want, tol):
            raise Violation('{}: got {!r}, expected {!r}'.format(msg, got, want))

    def vec(self, got, want, msg='', tol=1e-7):
        self.transitions += 1
        try:
            g = (float(got.x), float(got.y))
        except Exception:
            raise Violation('{}: got {!r}, expected {!r}'.format(msg, got, want))
        if not close_vec(g, want, tol):
            raise Violation('{}: got {!r}, expected {!r}'.format(msg, g, tuple(want)))

    def raises(self, exc, func, msg=''):
        self.transitions += 1
        try:
            r = func()
        except exc:
            return
        raise Violation('{}: no {} raised, got {!r}'.format(msg, exc, r))

def type_free_eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False

def close(a, b, tol=1e-7):
    try:
        a = float(a); b = float(b)
    except Exception:
        return False
    if math.isnan(a) or math.isnan(b):
        return False
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol*max(1., abs(a), abs(b))

def close_vec(a, b, tol=1e-7):
    scale = max(1., *[abs(float(x)) for x in a], *[abs(float(x)) for x in b])
    for x, y in zip(a, b):
        d = abs(float(x) - float(y))
        if not d <= tol*scale: # also false for NaN
            return False
    return True

def fmt(msg, *args):
    return msg.format(*args) if args else msg

def hash_key(key):
    if not isinstance(key, (str, bytes)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode()
    return int.from_bytes(hashlib.blake2b(key, digest_size=7).digest(), 'big')

####################################################################################################

class Space:

    """name: identifier; cases: a list or a generator function of JSON-able cases;
    run(case, ctx): executes one case; note: what is enumerated, bounds."""

    def __init__(self, name, cases, run, note='', timeout=60):
        self.name = name
        self._cases = cases
        self.run = run
        self.note = note
        self.timeout = timeout

    def cases(self):
        return self._cases() if callable(self._cases) else self._cases

####################################################################################################

def canon_case(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))

def _alarm(signum, frame):
    raise CaseTimeout()

def run_case(space, case, ctx):
    """Return None or an error message."""
    sink = io.StringIO()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, space.timeout)
    try:
        with contextlib.redirect_stdout(sink):
            space.run(case, ctx)
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.traces += 1
        return None
    except CaseTimeout:
        return 'no answer within {} s'.format(space.timeout)
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ''
        for frame in tb:
            if REPO in frame.filename:
                where = ' at {}:{}'.format(os.path.relpath(frame.filename, REPO), frame.name)
        return 'unexpected {}: {}{}'.format(type(e).__name__, e, where)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)

####################################################################################################

MAX_FAILURES = 40

def _worker(space, wid, n, queue, stop, deadline):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    ctx = Ctx()
    count = 0
    failures = []
    capped = False
    err = None
    t0 = time.time()
    try:
        i = -1
        for i, case in enumerate(space.cases()):
            if i % n != wid:
                continue
            if stop.value >= MAX_FAILURES*4:
                capped = True
                break
            if deadline and time.time() > deadline:
                capped = True
                break
            count += 1
            msg = run_case(space, case, ctx)
            if msg is not None:
                with stop.get_lock():
                    stop.value += 1
                failures.append((i, case, msg))
                if len(failures) >= MAX_FAILURES:
                    capped = True
                    break
            elif len(ctx.samples) < 2 and (count in (1, 37)):
                ctx.samples.append(case)
    except BaseException:
        err = traceback.format_exc()
    queue.put((wid, count, ctx.states, ctx.transitions, ctx.traces, ctx.samples, ctx.outcomes, failures, capped, err))

def run_space(space, jobs, deadline=None):
    cm = mp.get_context('fork')
    queue = cm.Queue()
    stop = cm.Value('i', 0)
    procs = [cm.Process(target=_worker, args=(space, w, jobs, queue, stop, deadline)) for w in range(jobs)]
    for p in procs:
        p.start()
    results = []
    alive = set(range(jobs))
    while alive:
        try:
            r = queue.get(timeout=5)
            results.append(r)
            alive.discard(r[0])
        except Exception:
            for w in list(alive):
                if not procs[w].is_alive() and queue.empty():
                    time.sleep(0.5)
                    if queue.empty():
                        # the process died (memory, crash of a C extension) without an answer
                        results.append((w, 0, set(), 0, 0, [], set(),
                                        [(-1, {'worker': w}, 'worker process died, exit code {}'.format(procs[w].exitcode))],
                                        True, None))
                        alive.discard(w)
    for p in procs:
        p.join()
    return results

####################################################################################################

def load_known():
    """known: property=<id> space=<space> case=<sha or json> ... lines"""
    known = {}
    if os.path.exists(KNOWN_PATH):
        for line in open(KNOWN_PATH):
            line = line.strip()
            m = re.match(r'known: property=(\S+) space=(\S+) case=(\S+) (.*)$', line)
            if m:
                pid, space, case, what = m.groups()
                known[(pid, space, case)] = what
    return known

def case_id(case):
    return hashlib.blake2b(canon_case(case).encode(), digest_size=8).hexdigest()

####################################################################################################

def main(module, argv=None):
    pid = module.PROPERTY
    tier = os.environ.get('VERIF_TIER', 'quick')
    argv = sys.argv[1:] if argv is None else argv
    only = None
    for a in argv:
        if a in ('quick', 'thorough'):
            tier = a
        elif a.startswith('--space='):
            only = a.split('=', 1)[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(os.environ.get('MC_JOBS', '8'))
    t0 = time.time()
    known = load_known()
    per_space = {}
    tot_states = set()
    tot_tr = tot_traces = 0
    samples = []
    violations = []
    known_hits = []
    capped_any = False
    errors = []
    os.makedirs(os.path.join(OUT, 'replay'), exist_ok=True)
    deadline = None
    budget = float(os.environ.get('MC_BUDGET', '0') or 0)
    if not budget:
        budget = 780. if tier == 'quick' else 0
    if budget:
        deadline = t0 + budget
    try:
        spaces = module.spaces(tier)
    except Exception:
        # the code under test cannot even be set up: nothing it promises holds
        msg = traceback.format_exc()
        spaces = []
        violations.append(('setup', {'setup': True}, msg.strip().splitlines()[-1]))
        sys.stderr.write(msg)
    for space in spaces:
        if only and space.name != only:
            continue
        ts = time.time()
        results = run_space(space, jobs, deadline)
        n = sum(r[1] for r in results)
        states = set().union(*[r[2] for r in results])
        tr = sum(r[3] for r in results)
        traces = sum(r[4] for r in results)
        outcomes = set().union(*[r[6] for r in results])
        failures = sorted([f for r in results for f in r[7]], key=lambda f: f[0])
        capped = any(r[8] for r in results)
        for r in results:
            if r[9]:
                errors.append((space.name, r[9]))
        if results and results[0][5]:
            samples.append({'space': space.name, 'case': results[0][5][-1]})
        nk = 0
        for i, case, msg in failures:
            key = (pid, space.name, case_id(case))
            if key in known:
                nk += 1
                known_hits.append((space.name, case, known[key]))
            else:
                violations.append((space.name, case, msg))
        if n and not failures and not capped and not states:
            errors.append((space.name, 'vacuous space: no state recorded'))
        if not n:
            if not capped:
                errors.append((space.name, 'empty space'))
        tot_states |= {(space.name, s) for s in states}
        tot_tr += tr
        tot_traces += traces
        capped_any |= capped
        per_space[space.name] = dict(cases=n, states=len(states), transitions=tr, traces_validated=traces,
                                     distinct_outcomes=len(outcomes), complete=not capped, wall_s=round(time.time() - ts, 2),
                                     bounds=space.note)
        print('{} {}: cases={} states={} transitions={} validated={} {}{:.1f}s'.format(
            pid, space.name, n, len(states), tr, traces, 'CAPPED ' if capped else '', time.time() - ts), flush=True)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(states=len(tot_states), transitions=tot_tr, traces_validated_against_impl=tot_traces,
                      exhaustive=not capped_any and not violations and not errors, samples=samples, spaces=per_space),
        assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)
        fh.write('\n')
    for space, case, what in known_hits:
        print('KNOWN-FINDING: property={} {} (space {}, case {})'.format(pid, what, space, canon_case(case)))
    if errors and not violations:
        for name, e in errors:
            sys.stderr.write('HARNESS ERROR in {}: {}\n'.format(name, e))
        return 3
    if violations:
        groups = {}
        for space, case, msg in violations:
            key = (space, re.sub(r'[-\d.e+]+', '#', msg)[:100])
            groups.setdefault(key, []).append((case, msg))
        for (space, _), items in list(groups.items())[:12]:
            case, msg = items[0]
            path = os.path.join(OUT, 'replay', '{}-{}-{}.json'.format(pid, space, case_id(case)))
            with open(path, 'w') as fh:
                json.dump(dict(property=pid, space=space, tier=tier, case=case, message=msg,
                               replay='/opt/venv/bin/python /verif/mc/replay.py ' + path), fh, indent=1, default=str)
            print('VIOLATION property={} replay={}'.format(pid, path))
            print('   [{}] x{} {} :: {}'.format(space, len(items), canon_case(case)[:600], msg[:600]))
        return 1
    print('{} held on everything explored ({} tier): states={} transitions={} traces={} in {:.1f}s'.format(
        pid, tier, len(tot_states), tot_tr, tot_traces, time.time() - t0))
    return 0
