"""C28: iterators, numeric helpers, roots, dates against their definitions."""
import itertools, math, datetime, os, tempfile
from fractions import Fraction as F
from mc import exact as X
from mc.core import Space
from Patro.Common.IterTools import closed_iterator, pairwise, closed_pairwise, multiwise, closed_multiwise_index_iterator
from Patro.Common.Math import Functions as Fn, Root
from Patro.Common.Datetime import ensure_date, ensure_datetime
from Patro.Common.Path import to_absolute_path, parent_directory_of, find
from Patro.GeometryEngine.Interpolation import interpolate_two_points
from Patro.GeometryEngine.Vector import Vector2D

PROPERTY = 'C28'
ASSUMPTIONS = ['the sign of zero is not specified', 'polynomials have small integer coefficients; the number of distinct real roots of the oracle is exact (Sturm)',
               'roots are compared as sets of distinct values with a tolerance of 1e-5']

def windows(case, ctx):
    n, k = case
    ctx.state(case)
    base = list(range(n))
    makers = {'list': lambda: list(base), 'tuple': lambda: tuple(base), 'str': lambda: ''.join(chr(97+i) for i in base),
              'iterator': lambda: iter(base), 'generator': lambda: (i for i in base), 'same': lambda: [7]*n, 'none': lambda: [None]*n, 'dict': lambda: {i: 0 for i in base}}
    for name, make in makers.items():
        s = list(make())
        ctx.eq(list(pairwise(make())), [(s[i], s[i+1]) for i in range(n-1)], 'pairwise of a ' + name)
        ctx.eq(list(closed_pairwise(make())), [(s[i], s[(i+1) % n]) for i in range(n)], 'closed_pairwise of a ' + name)
        ctx.eq(list(closed_iterator(make())), s + s[:1], 'closed_iterator of a ' + name)
        ctx.eq(list(multiwise(make(), k)), [tuple(s[i:i+k]) for i in range(n-k+1)] if k else [], 'multiwise of a ' + name)
    ctx.eq(list(multiwise(base)), [(i, i+1) for i in range(n-1)], 'multiwise, default size')
    ctx.eq([list(x) for x in closed_multiwise_index_iterator(n, k)], [[(i+j) % n for j in range(k)] for i in range(n)], 'closed indexes')
    ctx.eq([list(x) for x in closed_multiwise_index_iterator(n)], [[(i+j) % n for j in range(2)] for i in range(n)], 'closed indexes, default size')
    ctx.outcome((n, k))

VALUES = [-3, -2.5, -1.5, -1, -.5, -1e-9, 0, 1e-9, .25, .5, .75, 1, 1.0000001, 1.5, 2, 2.5, 3, 1e9]

def functions(case, ctx):
    a, b = case
    ctx.state(case)
    ctx.eq(Fn.cmp(a, b), -1 if a < b else (1 if a > b else 0), 'cmp')
    ctx.eq(Fn.middle(a, b), (a + b)/2, 'middle')
    if a:
        ctx.eq(Fn.sign(a), 1 if a > 0 else -1, 'sign')
    ctx.eq(Fn.ceil_int(a), -math.floor(-a), 'ceil_int'); ctx.check(isinstance(Fn.ceil_int(a), int), 'ceil_int is an int')
    r = Fn.rint(a)
    ctx.check(isinstance(r, int) and abs(r - a) <= .5, 'rint({}) = {}', a, r)
    ctx.eq(Fn.trignometric_clamp(a), max(-1, min(1, a)), 'clamp')
    ctx.eq(bool(Fn.is_in_trignometric_range(a)), -1 <= a <= 1, 'range')
    for e in (.25, 1, 2):
        ctx.eq(bool(Fn.epsilon_float(a, b, e)), abs(a-b) <= e, 'epsilon_float')
    ctx.eq(bool(Fn.epsilon_float(a, b)), abs(a-b) <= 1e-3, 'epsilon_float')
    for t in (0, .25, .5, 1, 2, -1):
        p = interpolate_two_points(Vector2D(a, 1), Vector2D(b, -2), t)
        ctx.vec(p, (a + (b-a)*t, 1 - 3*t), 'interpolation')
    ctx.eq(Fn.middle(0, a), a/2, 'middle')

def distinct(p):
    """number of distinct real roots"""
    p = X.ptrim(p)
    if len(p) <= 1:
        return 0
    m = 1 + max(abs(F(c, p[-1])) for c in p[:-1])
    return X.count_roots(p, -m, m)

def is_root_set(ctx, got, p, msg):
    ctx.check(isinstance(got, (list, tuple)) and all(isinstance(r, (int, float)) and r == r for r in got), '{}: {!r} is not a sequence of real numbers', msg, got)
    p = [F(c) for c in p]
    d = X.ptrim(p)
    # every value is a root: the square free part changes sign around it, or is null
    g = X.pgcd(d, X.pder(d)) if len(d) > 1 else None
    vals = []
    for r in sorted(got):
        if not vals or r - vals[-1] > 1e-5*max(1, abs(r)):
            vals.append(r)
    n = distinct(p)
    ctx.check(len(vals) == n, '{}: got {}, the polynomial has {} distinct real roots', msg, got, n)
    for r in vals:
        e = F(1, 10**5)*max(1, abs(F(r)))
        ctx.check(X.count_roots(d, F(r)-e, F(r)+e) >= 1, '{}: {} is not a root', msg, r)
    ctx.outcome(n)

def quadratic(case, ctx):
    a, b, c = case
    ctx.state(case)
    for k in (2.**-30, -2.**-16, 2.**20, 2.**40):
        is_root_set(ctx, Root.quadratic_root(k*a, k*b, k*c), [c, b, a], 'quadratic_root of coefficients multiplied by {}'.format(k))
    is_root_set(ctx, Root.quadratic_root(a, b, c), [c, b, a], 'quadratic_root')
    is_root_set(ctx, Root.cubic_root(0, a, b, c), [c, b, a], 'cubic_root without cubic term')

def vanishing(case, ctx):
    """a leading coefficient which vanishes up to a rounding error"""
    a, b, c = case
    ctx.state(case)
    for k in (24, 40, 52, 60):
        for a_ in (a*2.**-k, -a*2.**-k):
            is_root_set(ctx, Root.quadratic_root(a_, b, c), [c, b, a_], 'quadratic_root({}, {}, {})'.format(a_, b, c))

def cubic(case, ctx):
    a, b, c, d = case
    ctx.state(case)
    is_root_set(ctx, Root.cubic_root(a, b, c, d), [d, c, b, a], 'cubic_root')
    k = (2.**-20, -.5, 2.**12)[(a + b + c + d) % 3]
    is_root_set(ctx, Root.cubic_root(k*a, k*b, k*c, k*d), [d, c, b, a], 'cubic_root of coefficients multiplied by {}'.format(k))
    f = getattr(Root, 'cubic_root_normalised', None)
    if f is not None and a == 1:
        is_root_set(ctx, f(b, c, d), [d, c, b, a], 'cubic_root_normalised')
    f = getattr(Root, 'fourth_root_normalised', None)
    if f is not None:
        is_root_set(ctx, f(a, b, c, d), [d, c, b, a, 1], 'fourth_root_normalised')

def fifth(case, ctx):
    ctx.state(case)
    is_root_set(ctx, Root.fifth_root(*case), list(reversed(case)), 'fifth_root')
    if case[0] and case[4] == 0 and getattr(Root, 'fifth_root_sympy', None):
        is_root_set(ctx, Root.fifth_root_sympy(*case), list(reversed(case)), 'fifth_root_sympy')
    if case[0] == 1:
        is_root_set(ctx, Root.fifth_root_normalised(*case[1:]), list(reversed(case)), 'fifth_root_normalised')

def dates(case, ctx):
    y, m, d, h, mi, s, us = case
    ctx.state(case)
    D = datetime.date(y, m, d); T = datetime.datetime(y, m, d, h, mi, s, us)
    for x in (D, '{:04}-{:02}-{:02}'.format(y, m, d), T):
        r = ensure_date(x)
        ctx.check(type(r) is datetime.date and r == D, 'ensure_date({!r}) = {!r}', x, r)
    for x in (T, '{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:06}Z'.format(y, m, d, h, mi, s, us)):
        r = ensure_datetime(x)
        ctx.check(type(r) is datetime.datetime and r.replace(tzinfo=None) == T, 'ensure_datetime({!r}) = {!r}', x, r)

def bad_dates(case, ctx):
    ctx.state(case)
    ctx.raises(ValueError, lambda: ensure_date(case), 'ensure_date({!r})'.format(case))
    ctx.raises(ValueError, lambda: ensure_datetime(case), 'ensure_datetime({!r})'.format(case))

def paths(case, ctx):
    parts, step = case
    ctx.state(case)
    p = '/' + '/'.join(parts)
    want = p
    for _ in range(step):
        want = os.path.dirname(want)
    ctx.eq(str(parent_directory_of(p, step)), want, 'parent directory')
    ctx.eq(str(to_absolute_path(p + '/')), p if parts else '/', 'absolute path')

def finding(case, ctx):
    tree, name, as_str = case
    ctx.state(case)
    with tempfile.TemporaryDirectory(prefix='mc-c28-') as tmp:
        for f in tree:
            q = os.path.join(tmp, f)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            open(q, 'w').close()
        dirs = tmp if as_str else [os.path.join(tmp, 'none'), tmp]
        have = [f for f in tree if os.path.basename(f) == name]
        if have:
            got = find(name, dirs)
            ctx.check(os.path.relpath(got, tmp) in have, 'find gives {}', got)
        else:
            ctx.raises(NameError, lambda: find(name, dirs), 'find')

def spaces(tier):
    T = tier == 'thorough'
    R = range(-4, 5)
    r5 = range(-1, 2)
    fifths = lambda: ([a, b, c, d, e, f] for a in ((0, 1, -2) if T else (0, 1, -2)) for b in r5 for c in r5 for d in r5 for e in (r5 if T else (0, 1)) for f in (r5 if T else (-1, 0)))
    rc = range(-3, 4) if T else range(-2, 3)
    ds = [[y, m, d, h, mi, s, us] for y in (1, 1900, 1970, 2000, 2024) for m, d in ((1, 1), (2, 28), (12, 31), (10, 5)) for h, mi, s, us in ((0, 0, 0, 0), (23, 59, 59, 999999), (12, 5, 7, 123000))] + [[2024, 2, 29, 1, 2, 3, 4]]
    trees = [list(t) for n in range(4) for t in itertools.combinations(['a', 'x/a', 'x/b', 'x/y/a', 'z/c'], n)]
    return [
        Space('iterators', [[n, k] for n in range(0, 12 if T else 9) for k in range(0, 12 if T else 9)], windows, 'sequences of length 0-8 of 8 kinds, windows 0-8'),
        Space('functions', [[a, b] for a in VALUES for b in VALUES], functions, 'pairs of 18 values'),
        Space('quadratic', [[a, b, c] for a in R for b in R for c in R] + [[a/4, b/2, c] for a in R for b in R for c in R], quadratic, 'all integer coefficients in [-4, 4], and fractions'),
        Space('vanishing', [[a, b, c] for a in (1, 3) for b in R if b for c in R], vanishing, 'leading coefficients of 2^-24 to 2^-60'),
        Space('cubic', lambda: ([a, b, c, d] for a in rc for b in rc for c in rc for d in rc), cubic, 'all integer coefficients in a range, also as normalised cubic and quartic'),
        Space('fifth', fifths, fifth, 'all coefficients of a grid'),
        Space('dates', ds, dates, 'dates and times, text and objects'),
        Space('bad-dates', ['', 'x', '2020-13-01', '2020-02-30', '2020', '2020/01/01', '2020-01-01T25:00:00.0Z'], bad_dates, 'ill formed dates'),
        Space('paths', [[list(p), k] for n in range(1, 4) for p in itertools.product(['a', 'b c'], repeat=n) for k in range(5)], paths, 'paths of depth 0-3'),
        Space('find', [[t, n, s] for t in trees for n in 'abcd' for s in (0, 1)], finding, 'file trees'),
    ]
