"""C07: counters, ids and singletons under every schedule (preemption bounded, bytecode granularity)."""
import itertools, os, sys
from mc import sched
sched.install()
from mc.core import Space, REPO, Violation
from Patro.Common import AtomicCounter as MC, Object as MO, Singleton as MS

PROPERTY = 'C07'
ASSUMPTIONS = ['CPython with the GIL: a bytecode instruction of Patro code is atomic, the threads are interleaved between any two of them (instructions that only touch their frame commute and are not decision points)',
               'locks are those of threading or _thread, replaced by equivalent locks the scheduler knows',
               'only the counter, the automatic identifiers and the singleton metaclass are documented as thread safe']

def controlled(name):
    return name == sched.CONTROLLED or name.startswith(os.path.join(REPO, 'Patro'))

class Log:
    """calls and returns in their order, to check the histories are linearisable"""
    def __init__(self):
        self.events = []
    def call(self, op):
        e = [op, len(self.events), None, None]
        self.events.append(None)
        return e
    def ret(self, e, value):
        e[2] = value
        e[3] = len(self.events)
        self.events.append(None)

def linearisable(ops, init, final):
    """ops: [(op, start, value, stop)]; is there a sequential order, compatible with real time, which gives these values"""
    n = len(ops)
    seen = set()
    def go(done, value):
        if len(done) == n:
            return value == final
        key = (done, value)
        if key in seen:
            return False
        seen.add(key)
        for i, (op, a, v, b) in enumerate(ops):
            if i in done:
                continue
            # every call that returned before this one was called must be done
            if any(j not in done and ops[j][3] < a for j in range(n)):
                continue
            if op[0] == 'inc':
                ok, nv = v == value + op[1], value + op[1]
            elif op[0] == 'set':
                if op[1] <= value:
                    ok, nv = v == 'ValueError', value
                else:
                    ok, nv = v is None, op[1]
            else:
                ok, nv = v == value, value
            if ok and go(done | {i}, nv):
                return True
        return False
    return go(frozenset(), init)

def counter_case(case, ctx):
    programs, init, bound, first, tail = case
    def make():
        c = MC.AtomicCounter(init)
        log = []
        L = Log()
        def runner(program):
            def f():
                for op in program:
                    e = L.call(op)
                    log.append(e)
                    try:
                        if op[0] == 'inc':
                            r = c.increment(op[1]) if op[1] != 1 else c.increment()
                        elif op[0] == 'set':
                            r = c.set(op[1])
                        else:
                            r = int(c)
                    except ValueError:
                        r = 'ValueError'
                    L.ret(e, r)
            return f
        def verify():
            final = int(c)
            key = [(e[0], e[2]) for e in log]
            ctx.outcome((programs, key))
            ctx.check(linearisable([tuple(e) for e in log], init, final), 'no sequential order explains {} with a final value {}', log, final)
            ids = [e[2] for e in log if e[0][0] == 'inc']
            if all(e[0][1] > 0 for e in log if e[0][0] == 'inc'):
                ctx.check(len(set(ids)) == len(ids), 'the same value twice: {}', ids)
        return [runner(p) for p in programs], verify
    drive(ctx, make, case, bound, first, tail)

_pinned = []

def pin():
    # one processor per worker: the threads run one at a time, a switch is faster on one processor
    if not _pinned:
        _pinned.append(1)
        try:
            cpus = sorted(os.sched_getaffinity(0))
            os.sched_setaffinity(0, {cpus[os.getpid() % len(cpus)]})
        except (OSError, AttributeError):
            pass

def drive(ctx, make, case, bound, first, tail):
    pin()
    def visit(run):
        ctx.step(run.steps)
        ctx.state((case[:-3], [k for _, k, _ in run.trace]))
    try:
        sched.explore(make, bound, controlled, first, tail, visit)
    except Violation as e:
        raise Violation('{} (schedule {})'.format(e, getattr(e, 'schedule', None)))
    except (sched.Deadlock, sched.StepLimit) as e:
        raise Violation('{} (schedule {})'.format(e, getattr(e, 'schedule', None)))
    ctx.state(('case', case))

def id_case(case, ctx):
    programs, bound, first, tail = case
    def make():
        counter = MO.ObjectGlobalIdMixin.__object_counter__
        base = int(counter)
        class A(MO.ObjectGlobalIdMixin):
            pass
        class B(MO.ObjectGlobalIdMixin):
            pass
        classes = {'A': A, 'B': B}
        got = []
        refused = []
        def runner(program):
            def f():
                for k, ident in program:
                    try:
                        o = classes[k]() if ident is None else classes[k](base + ident)
                        got.append((o.id, ident))
                    except ValueError:
                        refused.append(ident)
            return f
        def verify():
            ids = [i for i, _ in got]
            ctx.outcome((programs, [i - base for i in sorted(ids)], refused))
            ctx.check(len(set(ids)) == len(ids), 'two objects have the same identifier: {}', got)
            ctx.check(all(ident is None or i == base + ident for i, ident in got), 'explicit identifiers: {}', got)
            ctx.check(len(got) + len(refused) == sum(len(p) for p in programs) and None not in refused, 'objects: {} {}', got, refused)
            ctx.check(all(i > base for i in ids), 'an identifier was already attributed: {} after {}', ids, base)
        return [runner(p) for p in programs], verify
    drive(ctx, make, case, bound, first, tail)

SOURCE = '''
class Base(metaclass=Meta):
    def __init__(self, x=0):
        log.append(('init', type(self).__name__, x))
        self.x = x
        self.ready = True

class Derived(Base):
    pass

class Outer(metaclass=Meta):
    def __init__(self, x=0):
        log.append(('init', 'Outer', x))
        self.inner = Base(x)
        self.x = x
        self.ready = True

class Failing(metaclass=Meta):
    tries = []
    def __init__(self, x=0):
        self.tries.append(x)
        if len(self.tries) == 1:
            raise OSError('first time')
        log.append(('init', 'Failing', x))
        self.x = x
        self.ready = True
'''
CODE = compile(SOURCE, sched.CONTROLLED, 'exec')

def singleton_case(case, ctx):
    programs, bound, first, tail = case
    def make():
        log = []
        ns = {'Meta': MS.SingletonMetaClass, 'log': log, '__name__': 'mc'}
        exec(CODE, ns)
        got = []
        failed = []
        def runner(i, program):
            def f():
                for k in program:
                    try:
                        o = ns[k](i)
                        got.append((k, o, getattr(o, 'ready', False)))
                    except OSError:
                        failed.append(k)
            return f
        def verify():
            ctx.outcome((programs, log, failed))
            for k in ('Base', 'Derived', 'Outer', 'Failing'):
                objs = [o for n, o, _ in got if n == k]
                ctx.check(all(o is objs[0] for o in objs), '{} has several instances', k)
                ctx.check(all(type(o).__name__ == k for o in objs), 'wrong class for {}', k)
                inits = [e for e in log if e[1] == k]
                used = bool(objs) or (k == 'Base' and any(n == 'Outer' for n, _, _ in got))
                ctx.check(len(inits) == (1 if used else 0), '{} is initialised {} times', k, len(inits))
            ctx.check(all(r for _, _, r in got), 'an instance is returned before it is initialised')
            ctx.check(len(failed) == (1 if any('Failing' in p for p in programs) else 0), 'failures: {}', failed)
        return [runner(i, p) for i, p in enumerate(programs)], verify
    drive(ctx, make, case, bound, first, tail)

def sequential(case, ctx):
    """the other singletons, by one thread"""
    kind, n = case
    ctx.state(case)
    log = []
    class C:
        def __init__(self, x=0):
            log.append(x)
            self.x = x
    if kind == 'decorator':
        S = MS.singleton(C)
    elif kind == 'function':
        S = MS.singleton_func(C)
    elif kind == 'two-functions':
        class D:
            pass
        S, S2 = MS.singleton_func(C), MS.singleton_func(D)
    elif kind == 'monostate':
        class S(MS.monostate):
            pass
        objs = [S() for _ in range(n)]
        for i, o in enumerate(objs):
            o.v = i
            ctx.check(all(p.v == i for p in objs), 'the state is not shared')
        return
    objs = [S(i) for i in range(n)]
    ctx.check(all(o is objs[0] for o in objs) and log == [0], 'one instance, initialised once: {}', log)
    ctx.check(objs[0].x == 0, 'arguments')
    if kind == 'two-functions':
        ctx.check(S2() is S2() and S2() is not objs[0], 'two singletons are confused')

def parts(prefix, bound, k):
    out = [prefix + [bound, -1, False]]
    out += [prefix + [bound, i, False] for i in range(k)]
    return out + [prefix + [bound, k, True]]

def spaces(tier):
    T = tier == 'thorough'
    I = ['inc', 1]; I2 = ['inc', 2]; S = lambda v: ['set', v]; R = ['int']
    two = [[[I], [I]], [[I, I], [I]], [[I, I2], [I2, I]], [[I], [S(5)]], [[I, I], [S(1)]], [[S(3)], [S(2)]], [[S(3), I], [I, S(4)]], [[I, R], [I]], [[R, I], [S(2), R]], [[I, S(1)], [I, I]],
           [[['inc', 3], ['inc', -1]], [I, R]]]
    three = [[[I], [I], [I]], [[I], [I], [S(2)]], [[I], [S(3)], [R, R]], [[S(1)], [S(2)], [I]]]
    progs2 = [list(p) for p in itertools.product([[I], [S(1)], [S(2)], [R], [I, I], [I, S(2)], [S(1), I], [I2]], repeat=2)]
    K = 100
    counters = [x for p in two for x in parts([p, 0], 4 if T else 3, K)] + [x for p in progs2 for x in parts([p, 0], 3 if T else 2, 0)]
    counters += [x for p in two[:3] for x in parts([p, -1], 3, K)]
    counters3 = [x for p in three for x in parts([p, 0], 3 if T else 2, K)]
    full = [x for x in parts([[[I], [I]], 0], 99 if T else 8, K)]
    A, B, E = ['A', None], ['B', None], lambda v: ['A', v]
    objs = [[[A], [A]], [[A], [B]], [[A, A], [B, B]], [[A], [E(3)]], [[E(2)], [E(2)]], [[A, E(3)], [B, A]], [[E(1)], [A, A]]]
    objs3 = [[[A], [B], [A]], [[A], [B], [E(2)]]]
    ids = [x for p in objs for x in parts([p], 3 if T else 2, K)] + [x for p in objs3 for x in parts([p], 2, K)]
    sing = [[['Base'], ['Base']], [['Base', 'Base'], ['Base']], [['Base'], ['Derived']], [['Derived'], ['Derived', 'Base']], [['Outer'], ['Outer']], [['Outer'], ['Base']], [['Failing', 'Failing'], ['Failing', 'Failing']]]
    sing3 = [[['Base'], ['Base'], ['Base']], [['Outer'], ['Base'], ['Derived']]]
    sings = [x for p in sing for x in parts([p], 3 if T else 2, 200)] + [x for p in sing3 for x in parts([p], 2, 200)]
    seq = [[k, n] for k in ('decorator', 'function', 'two-functions', 'monostate') for n in (1, 2, 5)]
    return [
        Space('counter-2', counters, counter_case, 'two threads, programs of increment, set and read; every schedule up to 3 (all the pairs of 8 programs: 2) preemptions, thorough 4 (3)', timeout=600),
        Space('counter-full', full, counter_case, 'two increments: 8 preemptions (thorough: no bound)', timeout=600),
        Space('counter-3', counters3, counter_case, 'three threads, 2 (thorough 3) preemptions', timeout=600),
        Space('object-ids', ids, id_case, 'objects made by two and three threads, automatic and explicit identifiers', timeout=600),
        Space('singleton', sings, singleton_case, 'two and three threads, derived, nested and failing singletons', timeout=600),
        Space('sequential', seq, sequential, 'the other singletons, one thread'),
    ]
