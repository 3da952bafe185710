"""C01 pattern evaluation: every construction program up to the depth bound against an independent evaluation."""
import itertools

from mc.core import Space
from mc.patterns import *

PROPERTY = 'C01'

BASES = [
    [['single', 0, 0], ['single', 'w', 3], ['single', -2, '@m']],
    [['single', 1, 1], ['single', 1, 5], ['single', -3, 5]],
    [['single', '-@m', 2.5], ['single', 2, 2.5], ['single', 2, 2.5]],      # coincident points
    [['single', 0, 0], ['single', 3, 1], ['single', 6, 2]],                # aligned points
]

LENGTHS = [2, -1.5, '@m*2', 'CurrentLength/3', 'Line_A_A1/2', 0]
ANGLES = [0, 30, -90, 'AngleLine_A_A10', 200.5, -250, 450, 180, '-180', 360, 270.25, 800, -1000]
RADII = [1, 2.5, 'w', 'Line_A_A10', 40]

def steps(n, full, current=True):
    """every step on n points"""
    L = LENGTHS if full else [2, 'CurrentLength/3', 'Line_A_A1/-4']
    A = (ANGLES if full == 'all' else ANGLES[:5]) if full else [0, -90, 'AngleLine_A_A10']
    R = RADII if full else [2.5, 'w']
    noc = [l for l in L if 'Current' not in str(l)]
    idx = range(n)
    for p, q in itertools.product(idx, repeat=2):
        if p == q and not full:
            continue
        for l in L:
            yield ['along', p, q, l]
        for a in A:
            for l in L if full else L[:2]:
                yield ['normal', p, q, a, l]
        yield ['cross', p, q]
        yield ['line', p, q]
        for c in idx:
            for r in R:
                yield ['contact', p, q, c, r]
    for p in idx:
        for a in A:
            for l in noc:
                yield ['end', p, a, l]
    for p, q in itertools.combinations(idx, 2) if not full else itertools.permutations(idx, 2):
        for r, s in itertools.permutations(idx, 2):
            yield ['inter', p, q, r, s]
        for a1, l1, a2, l2 in ((30, 2, 200.5, '@m*2'), ('AngleLine_A_A10', 'Line_A_A1/2', -90, 1), (0, 0, 0, 0)):
            yield ['spline', p, q, a1, l1, a2, l2]

def one_cases(tier):
    for b in range(len(BASES)):
        for s in steps(3, 'all'):
            yield [b, [s]]

def two_cases(tier):
    bases = [0, 2] if tier == 'quick' else range(len(BASES))
    for b in bases:
        for s1 in steps(3, tier != 'quick' and b == 0):
            if s1[0] not in POINT_KINDS:
                continue
            for s2 in steps(4, False):
                if 3 in step_points(s2) and (tier != 'quick' or b == 0 or len(set(step_points(s2))) == len(step_points(s2))): # uses the new point
                    yield [b, [s1, s2]]

def three_cases(tier):
    # chains of three steps, each on the points before, reduced operands
    def some(n):
        last = n - 1
        for s in steps(n, False):
            p = step_points(s)
            if p and last in p and s[0] in POINT_KINDS and all(x in (0, last - 1, last) for x in p):
                if len(set(p)) == len(p) or s[0] == 'inter':
                    yield s
    def tiny(n):
        l = n - 1
        return [['along', l, 0, 'CurrentLength/3'], ['along', 0, l, 2], ['normal', l, l - 1, -90, 2], ['normal', 0, l, 'AngleLine_A_A10', 'CurrentLength/3'],
                ['inter', 0, l, 1, 2], ['inter', 1, 2, l - 1, l], ['contact', 0, l, 1, 2.5], ['contact', 1, 0, l, 'w'], ['end', l, 'AngleLine_A_A10', 'Line_A_A1/-4'],
                ['cross', l, 1], ['cross', 2, l], ['spline', l, 1, 30, 2, 'AngleLine_A_A10', 'Line_A_A1/2'], ['line', l, 1]]
    for s1 in some(3) if tier != 'quick' else [s for s in tiny(3) if s[0] in POINT_KINDS]:
        for s2 in some(4):
            for s3 in some(5) if tier != 'quick' else tiny(5):
                yield [0, [s1, s2, s3]]
    # and chains of four over the small alphabet
    for s1 in tiny(3):
        for s2 in tiny(4):
            for s3 in tiny(5):
                for s4 in tiny(6):
                    if all(s[0] in POINT_KINDS for s in (s1, s2, s3)):
                        yield [1, [s1, s2, s3, s4]]

def program_of(case):
    b, steps = case
    return BASES[b] + [list(s) for s in steps]

def run(case, ctx):
    program = program_of(case)
    sketch = new_sketch()
    points = []
    ops = [add_step(sketch, s, points) for s in program]
    raised = None
    try:
        sketch.eval()
    except Exception as e:
        raised = e
    ctx.step(len(ops))
    pts = check_program(ctx, program, ops, raised)
    ctx.state(tuple(None if p is None else (round(p[0], 9), round(p[1], 9)) for p in pts))
    if raised is not None:
        ctx.check(any(p is None for p in pts), 'evaluation of {} raised {!r}', program, raised)
        return
    if all(p is not None for p in pts):
        bounding_box(ctx, program, sketch, pts, ops)
        sketch.eval() # again
        ctx.check(check_program(ctx, program, ops) == pts, 'second evaluation of {}', program)
    ctx.outcome(pts[-1])

def bounding_box(ctx, program, sketch, pts, ops):
    b = sketch.bounding_box
    hard = list(pts)
    soft = list(pts)
    for s, op in zip(program, ops):
        if s[0] == 'spline':
            g = op.geometry()
            soft += [(float(p.x), float(p.y)) for p in g.points]
            hard += [(float(p.x), float(p.y)) for p in (g.point_at_t(t/16) for t in range(17))]
    for axis, iv in ((0, b.x), (1, b.y)):
        lo = min(p[axis] for p in hard); hi = max(p[axis] for p in hard)
        slo = min(p[axis] for p in soft); shi = max(p[axis] for p in soft)
        ctx.check(slo - 1e-9 <= iv.inf <= lo + 1e-9 and hi - 1e-9 <= iv.sup <= shi + 1e-9, 'bounding box of {}: {}, expected [{}, {}]', program, b, lo, hi)

####################################################################################################
# invariance: references by name, id or object, automatic or explicit ids, styles, evaluation histories

def inv_cases(tier):
    progs = [
        [['along', 0, 1, 'CurrentLength/3'], ['normal', 3, 1, 30, '@m*2'], ['inter', 0, 4, 1, 2], ['line', 5, 0]],
        [['end', 1, 'AngleLine_A_A10', 'Line_A_A1/2'], ['contact', 0, 1, 3, 'w'], ['cross', 3, 4], ['spline', 0, 5, 30, 2, -90, '@m']],
        [['cross', 1, 2], ['line', 3, 0], ['along', 3, 2, 'Line_A_B/2'], ['line', 4, 1]],
        [['spline', 0, 1, 30, 2, -90, '@m'], ['normal', 2, 0, 'AngleLine_A1_A10', 'CurrentLength*2'], ['contact', 3, 1, 2, 2.5], ['end', 4, 0, -1]],
    ]
    for prog in progs:
        n = 3 + len(prog)
        for ref in ('name', 'id', 'object'):
            for ids in ('auto', 'down', 'sparse', 'mixed'):
                for evals in itertools.product((0, 1, 2), repeat=n - 1):
                    if tier == 'quick' and sum(1 for e in evals if e) > 2:
                        continue
                    yield [prog, ref, ids, evals]

def inv(case, ctx):
    prog, ref, ids, evals = case
    program = BASES[0] + [list(s) for s in prog]
    n = len(program)
    sketch = new_sketch()
    points = []
    ops = []
    for i, s in enumerate(program):
        id = {'auto': None, 'down': 50 - i, 'sparse': 7*i + 3, 'mixed': 4*i + 1 if i % 2 else None}[ids]
        op = add_step(sketch, s, points, ref, id)
        if id is not None:
            ctx.eq(op.id, id, 'explicit id')
        ops.append(op)
        if i < n - 1:
            for _ in range(evals[i]):
                sketch.eval()
                ctx.step()
                check_program(ctx, program[:i+1], ops)
    sketch.eval()
    pts = check_program(ctx, program, ops)
    ctx.check(all(p is not None for p in pts), 'a point has no position')
    bounding_box(ctx, program, sketch, pts, ops)
    ctx.state((prog, ref, ids))

def spaces(tier):
    return [
        Space('one', lambda: one_cases(tier), run, 'every step kind x every operand choice x every formula over 4 bases of 3 points (generic, right, coincident, aligned)'),
        Space('two', lambda: two_cases(tier), run, 'every pair of steps where the second uses the point of the first, all operand choices'),
        Space('three', lambda: three_cases(tier), run, 'chains of three steps each using the previous point (quick: first and third steps from 13 forms), and all chains of four over 13 forms'),
        Space('invariance', lambda: inv_cases(tier), inv, 'same program under references by name/id/object, id policies, and every history of evaluations between the steps'),
    ]
