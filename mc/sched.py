"""Controlled scheduler: runs Python threads one at a time, with a decision before every bytecode
instruction of the code under test that can touch shared state, and enumerates all the schedules up
to a number of preemptions (stateless exploration, depth first, by replay of choice prefixes).

install() must be called before the code under test is imported: it replaces the lock factories of
threading and _thread by locks the scheduler knows.  Outside of a run they are real locks.
"""
import dis
import sys
import threading
import _thread

real_allocate = _thread.allocate_lock
real_RLock = _thread.RLock

CONTROLLED = '<mc-controlled>' # file name of generated code which is also under control

# instructions that only touch the frame commute with the other threads
_VISIBLE = ('ATTR', 'GLOBAL', 'NAME', 'SUBSCR', 'CALL', 'DEREF', 'CONTAINS', 'FOR_ITER', 'SEND', 'BEFORE_WITH', 'WITH_EXCEPT',
            'METHOD', 'SLICE', 'IMPORT', 'UNPACK', 'GET_ITER', 'DELETE', 'LIST_', 'SET_', 'DICT_', 'MAP', 'COMPARE', 'BINARY_OP', 'END_FOR', 'YIELD')

_visible_cache = {}

def visible(code):
    v = _visible_cache.get(code)
    if v is None:
        v = frozenset(i.offset for i in dis.get_instructions(code) if any(k in i.opname for k in _VISIBLE)
                      and not (i.opname == 'BINARY_OP' or i.opname.startswith('COMPARE')))
        _visible_cache[code] = v
    return v

class Deadlock(Exception):
    pass

class StepLimit(Exception):
    pass

class _Abort(BaseException):
    pass

_current = None # Run in progress

class ShimLock:
    reentrant = False
    def __init__(self):
        self._real = None
        self._owner = None
        self._count = 0
    def _r(self):
        if self._real is None:
            self._real = real_RLock() if self.reentrant else real_allocate()
        return self._real
    def acquire(self, blocking=True, timeout=-1):
        run = _current
        t = run.me() if run is not None else None
        if t is None:
            return self._r().acquire(blocking, timeout)
        run.pause(t)
        while True:
            if self._owner is None or (self.reentrant and self._owner is t):
                self._owner = t
                self._count += 1
                return True
            if not blocking:
                return False
            t.waiting = self
            run.pause(t)
    def release(self):
        run = _current
        t = run.me() if run is not None else None
        if t is None:
            return self._r().release()
        if self._owner is None or (self.reentrant and self._owner is not t):
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
        run.pause(t)
    def locked(self):
        if _current is not None and _current.me() is not None:
            return self._owner is not None
        return self._r().locked()
    def __enter__(self):
        self.acquire()
        return True
    def __exit__(self, *a):
        self.release()
    # used by Condition
    def _is_owned(self):
        if self._owner is not None:
            return True
        r = self._r()
        if hasattr(r, '_is_owned'):
            return r._is_owned()
        if r.acquire(False):
            r.release()
            return False
        return True
    def _at_fork_reinit(self):
        self._real = None
        self._owner = None
        self._count = 0

class ShimRLock(ShimLock):
    reentrant = True

def install():
    threading.Lock = ShimLock
    threading.RLock = ShimRLock
    _thread.allocate_lock = ShimLock
    _thread.allocate = ShimLock
    _thread.RLock = ShimRLock

class Thread:
    def __init__(self, index, func):
        self.index = index
        self.func = func
        self.gate = real_allocate()
        self.gate.acquire()
        self.waiting = None
        self.done = False
        self.error = None
        self.ident = None

class Run:

    """One execution.  choices: list of the thread indexes chosen at the branching points."""

    def __init__(self, funcs, choices, under_control, max_steps=20000):
        self.threads = [Thread(i, f) for i, f in enumerate(funcs)]
        self.choices = choices
        self.trace = []        # (enabled threads, chosen, current is enabled)
        self.under_control = under_control
        self.max_steps = max_steps
        self.steps = 0
        self.failure = None
        self.abort = False
        self.main_gate = real_allocate()
        self.main_gate.acquire()
        self.by_ident = {}
        self.current = None

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def enabled(self):
        return [t for t in self.threads if not t.done and (
            t.waiting is None or t.waiting._owner is None or (t.waiting.reentrant and t.waiting._owner is t))]

    def pick(self, current):
        """the next thread to run, None when all are done"""
        en = self.enabled()
        if not en:
            if all(t.done for t in self.threads):
                return None
            raise Deadlock('deadlock: threads {} wait for ever'.format([t.index for t in self.threads if not t.done]))
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit('no end after {} steps'.format(self.max_steps))
        if len(en) == 1:
            return en[0]
        n = len(self.trace)
        cont = current is not None and current in en
        order = ([current] if cont else []) + [t for t in en if t is not current or not cont]
        k = self.choices[n] if n < len(self.choices) else 0
        self.trace.append((len(order), k, cont))
        return order[k]

    def pause(self, t):
        """called by the running thread"""
        if self.abort:
            raise _Abort()
        try:
            nxt = self.pick(t)
        except (Deadlock, StepLimit) as e:
            self.stop(e)
            raise _Abort()
        if nxt is not t:
            self.current = nxt
            nxt.gate.release()
            t.gate.acquire()
            if self.abort:
                raise _Abort()
        t.waiting = None

    def stop(self, e):
        if self.failure is None:
            self.failure = e
        self.abort = True

    def _tracer(self, frame, event, arg):
        if not self.under_control(frame.f_code.co_filename):
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        vis = visible(frame.f_code)
        t = self.me()
        def local(frame, event, arg):
            if event == 'opcode' and frame.f_lasti in vis:
                self.pause(t)
            return local
        return local

    def _body(self, t):
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        self.main_gate.release()
        t.gate.acquire()
        try:
            if not self.abort:
                sys.settrace(self._tracer)
                try:
                    t.func()
                finally:
                    sys.settrace(None)
        except _Abort:
            pass
        except BaseException as e:
            t.error = e
        t.done = True
        nxt = None
        if not self.abort:
            try:
                nxt = self.pick(t)
            except (Deadlock, StepLimit) as e:
                self.stop(e)
        if self.abort:
            left = [x for x in self.threads if not x.done]
            if left:
                left[0].gate.release()
            else:
                self.main_gate.release()
        elif nxt is None:
            self.main_gate.release()
        else:
            nxt.gate.release()

    def execute(self):
        global _current
        _current = self
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
                self.main_gate.acquire() # it is registered
            first = self.pick(None)
            first.gate.release()
            self.main_gate.acquire()
        finally:
            _current = None
        if self.failure is not None:
            raise self.failure

def preemptions(trace):
    return sum(1 for n, k, cont in trace if cont and k)

def explore(make, bound, under_control, first=None, tail=False, visit=None):
    """All the schedules with at most *bound* preemptions.  make() gives (functions, verify); verify()
    is called after each complete run.

    The schedules are partitioned by the index of their first branching decision which is not the
    default one: *first* (None: no restriction; -1: the schedule without any); with *tail* all the
    indexes from *first*."""
    count = 0
    def runs(prefix):
        funcs, verify = make()
        run = Run(funcs, prefix, under_control)
        try:
            run.execute()
            for t in run.threads:
                if t.error is not None:
                    raise t.error
            verify()
        except Exception as e:
            e.schedule = [k for _, k, _ in run.trace]
            raise
        if visit is not None:
            visit(run)
        return run
    stack = [[]]
    root = True
    while stack:
        prefix = stack.pop()
        run = runs(prefix)
        if not (root and first is not None and first != -1):
            count += 1
        trace = run.trace
        # alternatives after the prefix
        used = preemptions(trace[:len(prefix)])
        lo = len(prefix)
        idx = range(lo, len(trace))
        if root and first is not None:
            if first == -1:
                idx = range(0)
            elif tail:
                idx = range(max(lo, first), len(trace))
            else:
                idx = range(first, min(first+1, len(trace)))
        for i in idx:
            n, k, cont = trace[i]
            # choices after the prefix are defaults (0)
            if cont and used + 1 > bound:
                continue
            for alt in range(1, n):
                stack.append([c for _, c, _ in trace[:i]] + [alt])
        root = False
    return count
