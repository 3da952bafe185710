"""C04 measurements: values of the formulas in any naming and order, lookup, save and load."""
import copy
import itertools
import os
import re
import tempfile
from fractions import Fraction as F

from mc.core import Space, hash_key
from mc.gen import seqs_upto

from Patro.Measurement.Measurement import MeasurementSet
from Patro.Measurement.PersonalData import PersonalData
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Measurement.StandardMeasurement import Measurement as StdMeasurement, StandardMeasurement
from Patro.Measurement.ValentinaStandardMeasurement import ValentinaStandardMeasurement

PROPERTY = 'C04'

TOL = 1e-12

# name pools: prefixes of one another, Sympy names, long names with digits
POOLS = [
    ('a', 'aa', 'a1', 'a_a'),
    ('N', 'S', 'beta', 'E'),
    ('z', 'waist_circ', 'waist', 'w1'),
]

# formula of node i with the names of the nodes it refers to; exact value with their values
def formula(i, names):
    c = ('5/3', '0.7', '-2.25', '11')[i]
    return ' + '.join([c] + ['{}*{}'.format(n, k + 2) if k % 2 == 0 else '{}/{}'.format(n, k + 2)
                             for k, n in enumerate(names)])

def value(i, values):
    c = (F(5, 3), F(7, 10), F(-9, 4), F(11))[i]
    for k, v in enumerate(values):
        c += v*(k + 2) if k % 2 == 0 else v/(k + 2)
    return c

def graphs(n):
    """acyclic reference graphs: node i refers to a subset of the nodes before it"""
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for bits in range(1 << len(pairs)):
        g = [[] for _ in range(n)]
        for k, (i, j) in enumerate(pairs):
            if bits >> k & 1:
                g[i].append(j)
        yield g

def exact(g):
    v = []
    for i, refs in enumerate(g):
        v.append(value(i, [v[j] for j in refs]))
    return v

def order_cases(tier):
    top = 3 if tier == 'quick' else 4
    for n in range(1, 5):
        for g in graphs(n):
            if n == 4 and tier == 'quick' and sum(map(len, g)) < 3:
                continue
            for names in itertools.permutations(range(n)):
                for adds in itertools.permutations(range(n)):
                    if n < 4 or tier != 'quick':
                        for pool in range(len(POOLS)):
                            for queries in itertools.permutations(range(n)) if n <= top and n < 4 else [tuple(range(n)), tuple(reversed(range(n)))]:
                                yield [n, pool, g, names, adds, queries]
                    elif names[0] < names[1]:
                        yield [n, (names[2] + adds[0]) % 3, g, names, adds, adds]

def order(case, ctx):
    n, pool, g, names, adds, queries = case
    nm = [POOLS[pool][k] for k in names]
    ctx.state(case[:4])
    s = MeasurementSet()
    for i in adds:
        s.add(nm[i], formula(i, [nm[j] for j in g[i]]))
        ctx.step()
    want = exact(g)
    for i in queries:
        ctx.close(s[nm[i]].value, float(want[i]), 'measurement {} of {}'.format(nm[i], case), TOL)
    for i in range(n):
        ctx.close(float(s[nm[i]]), float(want[i]), 'second query', TOL)
        ctx.close(float(s[nm[i]].evaluated_expression), float(want[i]), 'evaluated expression', TOL)
    ctx.eq([m.name for m in s.sorted_iter()], sorted(nm), 'sorted_iter')
    ctx.eq(sorted(m.name for m in s), sorted(nm), 'iteration')
    ctx.outcome(float(want[-1]))

####################################################################################################
# histories of additions and queries

HN = ('a', 'aa', 'N')
HF = (('3', []), ('a*2 - 1/3', [0]), ('aa + a/2', [1, 0]))

def history_ops():
    return [['add', i] for i in range(3)] + [['val', i] for i in range(3)] + [['get', i] for i in range(3)] + [['copy', 0], ['all', 0]]

def history_cases(tier):
    for ops in seqs_upto(range(len(history_ops())), 1, 4 if tier == 'quick' else 5):
        yield list(ops)

HV = [F(3), F(6) - F(1, 3), F(6) - F(1, 3) + F(3, 2)]

def history(case, ctx):
    ops = history_ops()
    s = MeasurementSet('cm')
    model = {}
    def resolved(i):
        return i in model and all(resolved(j) for j in HF[i][1])
    for k in case:
        op, i = ops[k]
        n = HN[i]
        ctx.step()
        if op == 'add':
            if i in model:
                old = s[n]
                ctx.raises(NameError, lambda: s.add(n, '99'), 'second addition of {}'.format(n))
                ctx.raises(NameError, lambda: s.add(n, s[n].expression), 'second addition of {} with its own formula'.format(n))
                ctx.raises(NameError, lambda: s.add(n, str(s[n].expression), 'full', 'text'), 'second addition of {} with the same text'.format(n))
                ctx.check(s[n] is old, 'a refused addition replaced {}', n)
            else:
                model[i] = s.add(n, HF[i][0], 'full ' + n, 'desc ' + n)
                ctx.check(model[i] is not None and model[i] is s[n], 'add() does not return the measurement')
        elif op == 'val':
            if i not in model:
                ctx.raises(KeyError, lambda: s[n], 'unknown name')
                ctx.raises(AttributeError, lambda: getattr(s, n), 'unknown attribute')
                ctx.check(not hasattr(s, n), 'hasattr')
            elif resolved(i):
                ctx.close(s[n].value, float(HV[i]), 'value of {} after {}'.format(n, [ops[x] for x in case]), TOL)
            else:
                try:
                    v = s[n].value
                except Exception:
                    pass
                else:
                    ctx.check(False, 'the value of {} is {} although a reference is missing', n, v)
        elif op == 'get':
            if i in model:
                ctx.check(s[n] is model[i] and getattr(s, n) is model[i], 'lookups give different objects')
                ctx.eq((s[n].full_name, s[n].description), ('full ' + n, 'desc ' + n), 'names')
        elif op == 'copy':
            c = copy.deepcopy(s)
            ctx.eq([m.name for m in c], [m.name for m in s], 'deep copy')
            ctx.eq(c.unit, 'cm', 'unit')
        elif op == 'all':
            ctx.eq([m.name for m in s], [HN[j] for j in model], 'iteration order')
            ctx.eq([m.name for m in s.sorted_iter()], sorted(HN[j] for j in model), 'sorted iteration')
    ctx.state(sorted(model))
    for i in model:
        if resolved(i):
            ctx.close(s[HN[i]].value, float(HV[i]), 'final value', TOL)

####################################################################################################
# cycles

def cycle_cases(tier):
    n = 3
    pairs = [(i, j) for i in range(n) for j in range(n)]
    for bits in range(1 << len(pairs)):
        yield [[j for k, (i2, j) in enumerate(pairs) if i2 == i and bits >> k & 1] for i in range(n)]

def cycles(case, ctx):
    reach = {i: set(refs) for i, refs in enumerate(case)}
    for _ in range(3):
        for i in reach:
            for j in list(reach[i]):
                reach[i] |= reach[j]
    bad = {i for i in reach if any(j in reach[j] for j in reach[i] | {i})}
    s = MeasurementSet()
    names = ('a', 'b', 'c')
    for i, refs in enumerate(case):
        s.add(names[i], formula(i, [names[j] for j in refs]))
    ctx.state(case)
    memo = {}
    def val(i):
        return value(i, [val(j) for j in case[i]])
    for i in range(3):
        if i in bad:
            ctx.raises(Exception, lambda: s[names[i]].value, 'value of a circular measurement')
        else:
            ctx.close(s[names[i]].value, float(val(i)), 'value beside a circular measurement', TOL)

def depth_cases(tier):
    for n in (2, 3, 10, 50, 200) + ((1000,) if tier != 'quick' else ()):
        for up in (True, False):
            for q in (True, False):
                yield [n, up, q]

def depth(case, ctx):
    n, up, q = case
    s = MeasurementSet()
    order = range(n) if up else reversed(range(n))
    for i in order:
        s.add('c{}'.format(i), 'c{} + {}'.format(i - 1, i) if i else '1/8')
        ctx.step()
    ctx.state(case)
    if q:
        for i in range(n):
            ctx.close(s['c{}'.format(i)].value, i*(i+1)/2 + .125, 'chain', TOL)
    ctx.close(s['c{}'.format(n-1)].value, n*(n-1)/2 + .125, 'chain of {} references'.format(n), TOL)

####################################################################################################
# arithmetic

LEAVES = [('2', F(2)), ('0.5', F(1, 2)), ('10', F(10)), ('a', F(3)), ('aa', F(1, 3)), ('N', F(-7, 4))]

def exprs(depth):
    """(text, value) with full parentheses where needed"""
    if depth == 0:
        return LEAVES
    sub = exprs(depth - 1)
    out = list(LEAVES)
    low = LEAVES if depth > 1 else sub
    for t, v in sub:
        out.append(('-({})'.format(t), -v))
        out.append(('({})'.format(t), v))
    for (t1, v1), (t2, v2) in itertools.product(sub, low):
        out.append(('({}) + ({})'.format(t1, t2), v1 + v2))
        out.append(('({}) - ({})'.format(t1, t2), v1 - v2))
        out.append(('({})*({})'.format(t1, t2), v1*v2))
        if v2 != 0:
            out.append(('({})/({})'.format(t1, t2), v1/v2))
    return out

FLAT = ('2', '0.5', 'a', 'aa', 'N')
VAL = {'2': F(2), '0.5': F(1, 2), 'a': F(3), 'aa': F(1, 3), 'N': F(-7, 4)}

def flat_value(leaves, ops):
    # usual precedence, left associative
    terms = [VAL[leaves[0]]]
    signs = [1]
    for op, leaf in zip(ops, leaves[1:]):
        v = VAL[leaf]
        if op == '*':
            terms[-1] *= v
        elif op == '/':
            terms[-1] /= v
        else:
            signs.append(1 if op == '+' else -1)
            terms.append(v)
    return sum(s*t for s, t in zip(signs, terms))

def arith_cases(tier):
    for t, v in exprs(2):
        yield [t, str(v)]
    for n in (1, 2, 3, 4) if tier != 'quick' else (1, 2, 3):
        for leaves in itertools.product(FLAT, repeat=n):
            for ops in itertools.product('+-*/', repeat=n-1):
                t = leaves[0] + ''.join(' {} {}'.format(o, l) for o, l in zip(ops, leaves[1:]))
                yield [t, str(flat_value(leaves, ops))]
    for t, v in (('sqrt(a*12)', 6), ('a**2', 9), ('a^2 + aa', '28/3'), ('(a + 1)**2/4', 4), ('sqrt(a + 1)*N', '-7/2'),
                 ('Abs(N)', '7/4'), ('1e3*a', 3000), ('1.5e-2 + a', '603/200'), ('Max(a, aa)', 3), ('Min(a, N)', '-7/4')):
        yield [t, str(v)]

def arith(case, ctx):
    t, v = case
    ctx.state(t)
    s = MeasurementSet()
    s.add('x', t)
    s.add('a', 3)
    s.add('aa', '1/3')
    s.add('N', -1.75)
    ctx.close(s['x'].value, float(F(v)), 'value of {}'.format(t), TOL)
    ctx.outcome(v)

####################################################################################################
# names

def name_cases(tier):
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for cs in itertools.product('a1_ -@é.', repeat=n):
            yield ''.join(cs)

def names_(case, ctx):
    s = MeasurementSet()
    s.add('q', 1)
    ctx.state(case)
    want = case.replace(' ', '_')
    if all(c in 'a1_é' for c in want):
        m = s.add(case, '2.5')
        ctx.eq(m.name, want, 'name')
        ctx.check(s[want] is m, 'lookup of {}', want)
        ctx.close(m.value, 2.5, 'value')
        ctx.raises(NameError, lambda: s.add(want, 1), 'second addition')
    else:
        ctx.raises(ValueError, lambda: s.add(case, '2.5'), 'invalid name {!r}'.format(case))
        ctx.eq([m.name for m in s], ['q'], 'the set after a refusal')

####################################################################################################
# save and load

VALUES = [3, -2, 0, 0.1, 1/3, 1e-7, 12345678.125, '7', '2.5', '1/3', 'k/3 + 1', '-k*(2 + k)', 'sqrt(k)', '2*k^2']
TEXTS = ['', 'Waist', 'é à ß', 'a: b # c', "it's \"quoted\"", 'two\nlines', ' lead', '- x', 'yes', '12', '{x}', 'w'*200]
SNAMES = ['m', 'yes', 'null', 'on', '1e3', 'M_1', '12', 'n']

def yaml_cases(tier):
    for v in range(len(VALUES)):
        for f in range(len(TEXTS)):
            for d in (0, 3) if tier == 'quick' else range(len(TEXTS)):
                yield ['m', v, f, d]
    for f in range(len(TEXTS)):
        for d in range(len(TEXTS)):
            yield ['m', 0, f, d]
    for n in SNAMES:
        for v in range(len(VALUES)):
            yield [n, v, 1, 0]
            yield [n, v, 0, 0]

def yaml_(case, ctx):
    name, v, f, d = case
    ctx.state(case)
    s = MeasurementSet()
    s.add(name, VALUES[v], TEXTS[f], TEXTS[d])
    s.add('k', '16/9', 'K', '')
    s.add('last', 'k + 1')
    with tempfile.TemporaryDirectory(prefix='mc-c04-') as tmp:
        p = os.path.join(tmp, 'm.yaml')
        s.save_as_yaml(p)
        r = MeasurementSet()
        r.load_yaml(p)
        ctx.step(2)
        p2 = os.path.join(tmp, 'm2.yaml')
        r.save_as_yaml(p2)
        with open(p, encoding='utf8') as a, open(p2, encoding='utf8') as b:
            ctx.eq(b.read(), a.read(), 'saved again')
    ctx.eq(sorted(m.name for m in r), sorted(m.name for m in s), 'names')
    for m in s:
        q = r[m.name]
        ctx.eq((q.full_name, q.description), (m.full_name, m.description), 'texts')
        ctx.close(q.value, m.value, 'value of {} = {!r}'.format(m.name, VALUES[v]), TOL)
    ctx.close(r['last'].value, 25/9, 'value', TOL)

# sets saved and loaded at one place in turn: each one loaded is the last one saved

REPEATS = [(), (('a', '1'),), (('a', '2'),), (('a', '2'), ('b', 'a*3')), (('b', '5'),), (('a', 'b + 1'), ('b', '4/3'))]

def repeat_cases(tier):
    for n in (2, 3) if tier == 'quick' else (2, 3, 4):
        for seq in itertools.product(range(len(REPEATS)), repeat=n):
            yield list(seq)

def repeat(case, ctx):
    ctx.state(case)
    live = []
    with tempfile.TemporaryDirectory(prefix='mc-c04-') as tmp:
        p = os.path.join(tmp, 'm.yaml')
        for k in case:
            s = MeasurementSet()
            for name, value in REPEATS[k]:
                s.add(name, value)
            s.save_as_yaml(p)
            r = MeasurementSet()
            r.load_yaml(p)
            ctx.step(2)
            live.append((k, s, r))
            for j, s, r in live:
                d = dict(REPEATS[j])
                d = {n: eval(v, {}, {m: eval(d[m], {}, {}) for m in re.findall('[ab]', v)}) for n, v in d.items()}
                for x in (s, r):
                    ctx.eq(sorted(m.name for m in x), sorted(d), 'names in {}'.format(case))
                    for n, v in d.items():
                        ctx.close(x[n].value, v, 'value of {} in {}'.format(n, case), TOL)

####################################################################################################
# Valentina sets

VN = ('@a', 'a', '@a_b', 'waist', '@b')

def valentina_cases(tier):
    forms = ['3', '@a*2', '@a_b + @b - 1', 'a/4', '@a + a + @a', 'waist - @a_b/2', '-(@b)']
    for n in (1, 2, 3):
        for sub in itertools.permutations(range(len(VN)), n):
            for f in itertools.product(range(len(forms)), repeat=n - 1) if tier != 'quick' or n < 3 else itertools.product((0, 2, 4), range(len(forms))):
                yield [[VN[i] for i in sub], [forms[k] for k in f]]

def valentina(case, ctx):
    order, forms = case
    ctx.state(case)
    s = ValentinaMeasurements()
    base = {'@a': 1.25, 'a': 7, '@a_b': -3.5, 'waist': 11, '@b': 0.75}
    rest = [n for n in VN if n not in order]
    want = {}
    m = s.add('first', '@a + 1') # before its reference
    ctx.check(m is s['first'], 'add() does not return the measurement')
    for n in rest + [order[0]]:
        s.add(n, str(base[n]))
        want[n] = base[n]
    for n, f in zip(order[1:], forms):
        s.add(n, f)
    for n, f in list(zip(order[1:], forms)):
        want[n] = f
    # exact evaluation, skipping circular definitions
    def ev(n, path=()):
        if n in path:
            raise ZeroDivisionError
        f = want[n]
        if not isinstance(f, str):
            return f
        t = f
        for q in sorted(VN, key=len, reverse=True):
            t = t.replace(q, '<{}>'.format(VN.index(q))) if q.startswith('@') else t
        for q in ('waist', 'a'):
            t = t.replace(q, '<{}>'.format(VN.index(q)))
        import re
        return eval(re.sub(r'<(\d)>', lambda k: '({!r})'.format(ev(VN[int(k[1])], path + (n,))), t))
    for n in VN:
        ident = n.replace('@', 'C_')
        m = s[n]
        ctx.check(m is s[ident] and m is getattr(s, ident), 'lookups of {} differ', n)
        ctx.eq((m.valentina_name, m.is_custom()), (n, n.startswith('@')), 'Valentina name')
        try:
            w = ev(n)
        except ZeroDivisionError:
            ctx.raises(Exception, lambda: m.value, 'circular')
            continue
        ctx.close(m.value, w, 'value of {} in {}'.format(n, case), TOL)
    ctx.eq(sorted(m.valentina_name for m in s), sorted(VN + ('first',)), 'iteration gives every measurement once')
    ctx.raises(NameError, lambda: s.add(order[0], '1'), 'second addition')

####################################################################################################

def std_cases(tier):
    for ops in seqs_upto('abA', 1, 5):
        yield list(ops)
    yield ['valentina']

def std(case, ctx):
    ctx.state(case)
    if case == ['valentina']:
        import yaml
        from mc.core import REPO
        with open(os.path.join(REPO, 'Patro/Measurement/data/valentina-standard-measurements.yaml'), encoding='utf8') as fh:
            data = yaml.safe_load(fh)
        s = ValentinaStandardMeasurement()
        n = 0
        for topic in data.values():
            for code, (name, full, desc, default) in topic['measurements'].items():
                m = s[name]
                ctx.eq((m.code, m.name, m.full_name, m.description, m.default_value), (code, name, full, desc, default), 'standard measurement')
                ctx.check(name in s, 'membership')
                n += 1
        ctx.eq(len(s), n, 'length')
        ctx.eq(len(list(s)), n, 'iteration')
        return
    s = StandardMeasurement()
    model = {}
    for c in case:
        m = StdMeasurement(c, 'full ' + c, 'desc', 2)
        if c in model:
            ctx.raises(NameError, lambda: s.add(m), 'second addition')
        else:
            s.add(m)
            model[c] = m
        ctx.eq(list(s), list(model.values()), 'iteration')
        ctx.eq(len(s), len(model), 'length')
        for x in 'abA':
            ctx.eq(x in s, x in model, 'membership')
            if x in model:
                ctx.check(s[x] is model[x], 'lookup')

####################################################################################################

def set_cases(tier):
    for unit in (None, 'cm', 'inch'):
        for pm in (None, '998', 'x'):
            for personal in (0, 1, 2):
                for cls in range(2):
                    yield [unit, pm, personal, cls]

def sets(case, ctx):
    unit, pm, personal, cls = case
    ctx.state(case)
    cls = (MeasurementSet, ValentinaMeasurements)[cls]
    person = [None, PersonalData(first_name='a'), PersonalData()][personal]
    kwargs = {k: v for k, v in (('unit', unit), ('pattern_making_system', pm), ('personal_data', person)) if v is not None}
    s = cls(**kwargs)
    other = cls()
    ctx.eq((s.unit, s.pattern_making_system), (unit, pm), 'unit and system')
    ctx.check(isinstance(s.personal, PersonalData) and (person is None or s.personal is person), 'personal data')
    ctx.eq(s.personal.first_name, 'a' if personal == 1 else '', 'first name')
    ctx.check(s.personal is not other.personal, 'the personal data of two sets')
    s.personal.first_name = 'z'
    s.unit, s.pattern_making_system = 'mm', 'y'
    ctx.eq((s.unit, s.pattern_making_system, s.personal.first_name), ('mm', 'y', 'z'), 'changed')
    ctx.eq((other.unit, other.pattern_making_system, other.personal.first_name, len(list(other))), (None, None, '', 0), 'another set')
    s.add('a', 1)
    ctx.eq(([m.name for m in s], len(list(other))), (['a'], 0), 'measurements of another set')

def spaces(tier):
    return [
        Space('orders', lambda: order_cases(tier), order, 'every acyclic reference graph on up to 4 measurements (quick: 4-node graphs with at least 3 references, half the namings), every naming, insertion order and query order, over three name pools'),
        Space('histories', lambda: history_cases(tier), history, 'every sequence of additions, queries, lookups and copies up to depth 4 (thorough 5) over 3 chained measurements'),
        Space('cycles', lambda: cycle_cases(tier), cycles, 'all 512 reference graphs on 3 measurements, cycles included'),
        Space('depth', lambda: depth_cases(tier), depth, 'reference chains up to 200 (thorough 1000)', timeout=300),
        Space('arithmetic', lambda: arith_cases(tier), arith, 'every expression tree of depth 2 and every flat formula of 3 (thorough 4) operands'),
        Space('names', lambda: name_cases(tier), names_, 'every name up to 3 (thorough 4) characters over valid and invalid characters'),
        Space('yaml', lambda: yaml_cases(tier), yaml_, 'values x names x texts through save, load and save'),
        Space('repeats', lambda: repeat_cases(tier), repeat, 'every sequence of 2 and 3 (thorough 4) of 6 sets saved and loaded at one place'),
        Space('sets', lambda: set_cases(tier), sets, 'the unit, system and person of every kind of set'),
        Space('valentina', lambda: valentina_cases(tier), valentina, 'custom names colliding with plain ones, every insertion order, formulas with several @names'),
        Space('standard', lambda: std_cases(tier), std, 'every sequence of additions up to 5, and the shipped table'),
    ]
