"""C02 formulas: value and dependencies of every formula of the grammar over colliding names."""
import itertools
import math

from mc.core import Space, hash_key, close

from Patro.GeometryEngine.Vector import Vector2D
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Calculator import Expression, NamedExpression, Calculator
from Patro.Pattern.Pattern import Pattern
import Patro.Pattern

PROPERTY = 'C02'

MEAS = {'a': 2.5, 'aa': 7.0, 'a1': -1.25, '@a': 3.0, '@ab': 0.5, '@a_b': 11.0, 'waist': 64.0, '@waist': 0.375,
        'w_Line_A_B': 13.0, 'Deadline_A': 17.0, 'ALine_A_A1': 19.0, 'Line_B_A10': 29.0, 'AngleLine_w': 31.0}
POINTS = {'A': (0, 0), 'A1': (3, 4), 'A10': (-5, 12), 'B': (1, -1), 'AB': (0, 2), 'a': (-2, 0), 'Line': (1, 8)}
SEGMENT = (8, -15) # length 17

def dist(p, q):
    return math.hypot(POINTS[q][0] - POINTS[p][0], POINTS[q][1] - POINTS[p][1])

def angle(p, q):
    return math.degrees(math.atan2(POINTS[q][1] - POINTS[p][1], POINTS[q][0] - POINTS[p][0]))

# operand -> (value, points)
def operand(t):
    if t in MEAS:
        return MEAS[t], ()
    if t == 'CurrentLength':
        return 17., ()
    for f, g in (('AngleLine_', angle), ('Line_', dist)):
        if t.startswith(f):
            p, q = t[len(f):].split('_')
            return g(p, q), (p, q)
    return float(t), ()

SMALL = ['2', '0.5', 'a', 'aa', '@a', '@ab', '@a_b', 'a1', 'Line_A_A1', 'Line_A_A10', 'AngleLine_A_A1', 'CurrentLength', 'w_Line_A_B', 'ALine_A_A1']
LARGE = SMALL + ['1e3', '.25', 'waist', '@waist', 'Deadline_A', 'Line_A_B', 'Line_A_AB', 'Line_a_A', 'Line_Line_A', 'AngleLine_A1_A', 'AngleLine_A_A10',
                 'AngleLine_Line_AB', 'Line_A10_A1', 'Line_B_A10', 'AngleLine_w']

def make():
    m = ValentinaMeasurements('cm')
    for k, v in MEAS.items():
        m.add(k, str(v))
    pattern = Pattern(m, 'cm')
    sketch = pattern.add_scope('s').sketch
    for n, (x, y) in POINTS.items():
        sketch.SinglePoint(n, x, y, Vector2D(0, 0))
    sketch.eval()
    return sketch

_shared = None
def shared():
    global _shared
    if _shared is None:
        _shared = make()
    return _shared

def flat(leaves, ops):
    terms = [operand(leaves[0])[0]]
    signs = [1]
    for op, leaf in zip(ops, leaves[1:]):
        v = operand(leaf)[0]
        if op == '*':
            terms[-1] *= v
        elif op == '/':
            terms[-1] /= v
        else:
            signs.append(1 if op == '+' else -1)
            terms.append(v)
    return sum(s*t for s, t in zip(signs, terms))

def flat_cases(tier):
    for n in (1, 2):
        for leaves in itertools.product(LARGE, repeat=n):
            for ops in itertools.product('+-*/', repeat=n-1):
                yield [leaves, ops]
    for leaves in itertools.product(SMALL, repeat=3):
        for ops in itertools.product('+-*/', repeat=2):
            yield [leaves, ops]
    if tier != 'quick':
        for leaves in itertools.product(SMALL, repeat=4):
            for ops in ('+++', '*+*', '-*/', '/-+'):
                yield [leaves, ops]
        for leaves in itertools.product(LARGE, repeat=3):
            for ops in ('++', '-*'):
                yield [leaves, ops]

def run_flat(case, ctx):
    leaves, ops = case
    c = shared().calculator
    c.set_current_segment(Vector2D(*SEGMENT))
    want = flat(leaves, ops)
    pts = {p for l in leaves for p in operand(l)[1]}
    ctx.state(hash_key((tuple(leaves))))
    for t in ((leaves[0] + ''.join(o + l for o, l in zip(ops, leaves[1:]))),
              (leaves[0] + ''.join(' {} {}'.format(o, l) for o, l in zip(ops, leaves[1:])))):
        check(ctx, c, t, want, pts)
    ctx.outcome(round(want, 9))

def check(ctx, c, t, want, pts):
    e = Expression(t, c)
    ctx.close(e.value, want, 'value of "{}"'.format(t), 1e-9)
    ctx.eq({p.name for p in e.dependencies}, pts, 'dependencies of "{}"'.format(t))
    ctx.eq((e.expression, str(e)), (t, t), 'the text of the formula')
    e.eval()
    ctx.close(e.value, want, 'second evaluation of "{}"'.format(t), 1e-9)
    e.set_dirty()
    ctx.close(e.value, want, 'evaluation after set_dirty of "{}"'.format(t), 1e-9)

# nested formulas: every parenthesised tree shape over 3 and 4 operands

NEST = ['3', 'a', '@a', '@ab', 'Line_A_A1', 'Line_A_A10', 'AngleLine_A_A10']

def trees(leaves):
    """every binary tree with its Python text; value by structural evaluation"""
    if len(leaves) == 1:
        t = leaves[0]
        v = operand(t)[0]
        return [(t, v)]
    out = []
    for k in range(1, len(leaves)):
        for (t1, v1), (t2, v2) in itertools.product(trees(leaves[:k]), trees(leaves[k:])):
            out.append(('({} + {})'.format(t1, t2), v1 + v2))
            out.append(('({}-{})'.format(t1, t2), v1 - v2))
            out.append(('({}*{})'.format(t1, t2), v1*v2))
            if v2:
                out.append(('({} / {})'.format(t1, t2), v1/v2))
    if len(leaves) == 2:
        out += [('-' + t, -v) for t, v in out]
    return out

def nest_cases(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for leaves in itertools.product(NEST if n < 4 else NEST[1:5], repeat=n):
            yield list(leaves)

def run_nest(case, ctx):
    c = shared().calculator
    ctx.state(case)
    pts = {p for l in case for p in operand(l)[1]}
    for t, v in trees(case):
        ctx.step()
        e = Expression(t, c)
        if not close(e.value, v, 1e-9):
            ctx.check(False, 'value of "{}": got {}, expected {}', t, e.value, v)
        if {p.name for p in e.dependencies} != pts:
            ctx.check(False, 'dependencies of "{}": {}, expected {}', t, e.dependencies, pts)

# formulas inside construction steps

def step_cases(tier):
    for f in LARGE:
        for kind in ('Single', 'EndLine', 'AlongLine', 'Normal', 'Contact', 'Spline'):
            if f == 'CurrentLength' and kind not in ('AlongLine', 'Normal'):
                continue
            for g in ('2', '@ab*4', 'Line_A_A1/5', 'AngleLine_B_A1 + Line_A_B'):
                yield [f, kind, g]

def run_step(case, ctx):
    f, kind, g = case
    ctx.state(case)
    s = make()
    off = Vector2D(0, 0)
    if kind == 'Single':
        op = s.SinglePoint('P', f, g, off)
        forms = (op.x, op.y)
        own = set()
    elif kind == 'EndLine':
        op = s.EndLinePoint('P', 'A1', g, f, off)
        forms = (op.length, op.angle)
        own = {'A1'}
    elif kind == 'AlongLine':
        op = s.AlongLinePoint('P', 'A', 'A1', f, off)
        forms = (op.length,)
        g = None
        own = {'A', 'A1'}
    elif kind == 'Normal':
        op = s.NormalPoint('P', 'A', 'A1', g, f, off)
        forms = (op.length, op.angle)
        own = {'A', 'A1'}
    elif kind == 'Contact':
        op = s.PointOfContact('P', 'A', 'A1', 'B', f + ' + 100', off)
        f = f + ' + 100'
        forms = (op.radius,)
        g = None
        own = {'A', 'A1', 'B'}
    else:
        op = s.SimpleInteractiveSpline('A', 'A1', f, g, g, f)
        forms = (op.angle1, op.length1, op.angle2, op.length2)
        own = {'A', 'A1'}
    s.eval()
    ctx.step(len(s.operations))
    def val(t):
        if t is None:
            return None
        if t in LARGE:
            return operand(t)[0] if t != 'CurrentLength' else 5.
        if t.endswith('+ 100'):
            return val(t[:-6]) + 100
        return {'2': 2., '@ab*4': 2., 'Line_A_A1/5': 1.}.get(t, angle('B', 'A1') + dist('A', 'B'))
    def deps(t):
        if t is None:
            return set()
        return {p for p in POINTS if any(p in operand(q)[1] for q in LARGE + ['AngleLine_B_A1'] if q in t.replace('/', ' ').split())}
    want = (f, g) if kind != 'Spline' else (f, g, g, f)
    if kind == 'Normal' or kind == 'EndLine':
        want = (f, g)
    for e, t in zip(forms, want):
        ctx.close(e.value, val(t), '{} in a {} step'.format(t, kind), 1e-9)
        ctx.eq({p.name for p in e.dependencies}, deps(t), 'dependencies of {} in a {} step'.format(t, kind))
    ctx.eq({p.name for p in op.dependencies}, own | deps(f) | deps(g), 'dependencies of the step')

# formulas on measurement sets built in any order, undefined names have no value

def undefined_cases(tier):
    for t in ('zz', 'a + zz', 'Zline', 'a*zz + @a', 'Line_A_A1 + zz'):
        yield t

def run_undefined(case, ctx):
    c = shared().calculator
    ctx.state(case)
    e = Expression(case, c)
    ctx.check(e.value is None, '"{}" has the value {} although a name is not defined', case, e.value)
    ctx.check(e.value is None, 'second query')

# functions and operators around the names: the value is that of the same text on the numbers

CONTEXTS = ['abs({0})', 'abs(-{0})', 'max({0}, {1})', 'min(1, {0})', 'round({0}, ndigits=1)', 'round(number={0})', 'round({0}, ndigits=round({1}*0))', 'pow({0}, 2)', 'sum([{0}, {1}])',
            'sum([{0}], start={1})', 'max([{0}, 1], key=abs) + {1}', 'max(*[1, {0}])', 'max(1, 2, key=lambda x: x*{0})', '({0} if {1} > 1 else 2)', '(3 if {0} > {1} else 2)', '(1 if 2 > 1 else {0})',
            '{0}**2', '-(-{0})', '+{0}', '{0} % 7', '{0} // 2', '({0} < {1})*3', '({0} == {0}) + 1', 'abs(min({0}, max({1}, 3)))', 'abs(abs({0}) - abs({1}))', 'max(abs({0}), {1}) + min({1}, abs({0}))',
            '({0}, {1})[0]', '[{0}, {1}][1]', 'max(x for x in [{0}, {1}])', '{{1: {0}}}[1]', '({0}) or {1}', '({0} > 0) and {1}', 'not {0}', 'int({0}) + float({1})', ' {0}', '{0} ', '( {0} )', '{0}\t+ {1}',
            '{0}<{1}', '-{0}**2', '2*-{0}', '{0}--{1}', '{0}+-{1}', '1.5e1*{0}', '1e-2+{0}', '.5*{0}', '5.*{0}', '0x10 + {0}']

def context_cases(tier):
    leaves = ['3', '-2', 'a', '@a', '@ab', 'w_Line_A_B', 'Line_B_A10', 'AngleLine_w', 'Line_A_A1', 'Line_A_A10', 'AngleLine_A_A10', 'AngleLine_A1_A', 'CurrentLength']
    for t in CONTEXTS:
        for x in leaves:
            for y in leaves if '{1}' in t else ['']:
                yield [t, x, y]

def run_context(case, ctx):
    t, x, y = case
    c = shared().calculator
    c.set_current_segment(Vector2D(*SEGMENT))
    v = [operand(l)[0] if l else 0 for l in (x, y)]
    try:
        want = eval(t.format('X', 'Y').strip(), {'X': v[0], 'Y': v[1]} if not any(l.startswith('-') for l in (x, y)) else {}) if not any(l.startswith('-') for l in (x, y)) else eval(t.format('({})'.format(v[0]) if not x.startswith('-') else x, '({})'.format(v[1]) if not y.startswith('-') else y).strip())
    except Exception:
        return
    ctx.state(case)
    s = t.format(x, y)
    e = Expression(s, c)
    got = e.value
    ctx.check(isinstance(got, (int, float)) and (isinstance(want, bool) and got == want or close(got, want, 1e-9)), 'value of "{}": got {}, expected {}', s, got, want)
    ctx.eq({p.name for p in e.dependencies}, {p for l in (x, y) if l for p in operand(l)[1]}, 'dependencies of "{}"'.format(s))

# several evaluations interleaved: the value does not depend on the formulas evaluated before

def inter_cases(tier):
    forms = ['@a + @ab', 'Line_A_A1*2', 'CurrentLength/2', 'a - aa', 'AngleLine_A_A10']
    for n in (2, 3):
        for seq in itertools.product(range(len(forms)), repeat=n):
            for segs in itertools.product((0, 1), repeat=n):
                yield [[forms[i] for i in seq], segs]

def run_inter(case, ctx):
    forms, segs = case
    ctx.state(case)
    c = make().calculator
    W = {'@a + @ab': lambda k: 3.5, 'Line_A_A1*2': lambda k: 10., 'CurrentLength/2': lambda k: k/2, 'a - aa': lambda k: -4.5,
         'AngleLine_A_A10': lambda k: angle('A', 'A10')}
    for f, k in zip(forms, segs):
        c.set_current_segment(Vector2D(6, 8) if k else Vector2D(0, -3))
        e = NamedExpression('n', f, c)
        ctx.close(e.value, W[f](10 if k else 3), 'value of {} in the sequence {}'.format(f, case), 1e-9)
        c.unset_current_segment()
        ctx.close(e.value, W[f](10 if k else 3), 'kept value', 1e-9)

def spaces(tier):
    return [
        Space('flat', lambda: flat_cases(tier), run_flat, 'every flat formula of 1-2 operands over 29 colliding names and 4 operators, of 3 operands over 14 names'),
        Space('nested', lambda: nest_cases(tier), run_nest, 'every parenthesised binary tree over 2-3 (thorough 4) operands and 4 operators'),
        Space('steps', lambda: step_cases(tier), run_step, 'every operand in every formula position of every construction step'),
        Space('contexts', lambda: context_cases(tier), run_context, 'every operand (and pair) within 46 forms: functions with positional, keyword and starred arguments, conditionals, comparisons, powers, sequences, number forms'),
        Space('undefined', lambda: undefined_cases(tier), run_undefined, 'formulas with an undefined name'),
        Space('interleaved', lambda: inter_cases(tier), run_inter, 'every sequence of 2-3 evaluations with changing current segments'),
    ]
