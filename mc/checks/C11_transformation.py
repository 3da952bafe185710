"""C11: transformations against plain matrix algebra."""
import itertools, math
import numpy as np
from Patro.GeometryEngine.Transformation import (
    Transformation2D as T2, AffineTransformation2D as A2, TransformationType as TT)
from Patro.GeometryEngine.Vector import Vector2D, HomogeneousVector2D

PROPERTY = 'C11'
ASSUMPTIONS = ['floating point results are compared with a relative tolerance of 1e-9']

def rot(a):
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return ((c, -s, 0), (s, c, 0), (0, 0, 1))

def lin(a, b, c, d, tx=0, ty=0):
    return ((a, b, tx), (c, d, ty), (0, 0, 1))

def mm(m, n):
    return tuple(tuple(sum(m[i][k]*n[k][j] for k in range(3)) for j in range(3)) for i in range(3))

def ap(m, p):
    return (m[0][0]*p[0] + m[0][1]*p[1] + m[0][2], m[1][0]*p[0] + m[1][1]*p[1] + m[1][2])

I3 = lin(1, 0, 0, 1)

# name: (constructor, reference matrix, kind or None)
LINEAR = {
    'id': (lambda: T2.Identity(), I3, TT.Identity),
    'r90': (lambda: T2.Rotation(90), rot(90), TT.Rotation),
    'r-30': (lambda: T2.Rotation(-30), rot(-30), TT.Rotation),
    'r180': (lambda: T2.Rotation(180), rot(180), TT.Rotation),
    's2': (lambda: T2.Scale(2), lin(2, 0, 0, 2), TT.Scale),
    's-2': (lambda: T2.Scale(-2), lin(-2, 0, 0, -2), TT.Scale),
    's.5': (lambda: T2.Scale(.5, .5), lin(.5, 0, 0, .5), TT.Scale),
    's1': (lambda: T2.Scale(1), I3, TT.Identity),
    's-1': (lambda: T2.Scale(-1), lin(-1, 0, 0, -1), TT.Parity),
    's2,3': (lambda: T2.Scale(2, 3), lin(2, 0, 0, 3), TT.Shear),
    's1,2': (lambda: T2.Scale(1, 2), lin(1, 0, 0, 2), TT.Shear),
    's-1,1': (lambda: T2.Scale(-1, 1), lin(-1, 0, 0, 1), TT.XParity),
    's1,-1': (lambda: T2.Scale(1, -1), lin(1, 0, 0, -1), TT.YParity),
    's2,-2': (lambda: T2.Scale(2, -2), lin(2, 0, 0, -2), TT.Shear),
    'P': (lambda: T2.Parity(), lin(-1, 0, 0, -1), TT.Parity),
    'X': (lambda: T2.XReflection(), lin(-1, 0, 0, 1), TT.XParity),
    'Y': (lambda: T2.YReflection(), lin(1, 0, 0, -1), TT.YParity),
    'sh': (lambda: T2([1, 2, 0, 1]), lin(1, 2, 0, 1), None),
    'swap': (lambda: T2((0, 1, 1, 0)), lin(0, 1, 1, 0), None),
    'gen': (lambda: T2(np.array(((1., 2.), (-3., .5)))), lin(1, 2, -3, .5), None),
    'lid': (lambda: T2([1, 0, 0, 1]), I3, TT.Identity),
    'lP': (lambda: T2([-1, 0, 0, -1]), lin(-1, 0, 0, -1), TT.Parity),
    'lX': (lambda: T2([-1, 0, 0, 1]), lin(-1, 0, 0, 1), TT.XParity),
    'lY': (lambda: T2([1, 0, 0, -1]), lin(1, 0, 0, -1), TT.YParity),
    'lS': (lambda: T2([3, 0, 0, 3]), lin(3, 0, 0, 3), TT.Scale),
    'cp': (lambda: T2(T2.Rotation(60)), rot(60), None),
    'nil': (lambda: T2([0, 0, 0, 0]), lin(0, 0, 0, 0), None),
    'rr': (lambda: T2([0, -1, 1, 0]), rot(90), None),
    'rf': (lambda: T2([0, 2, 2, 0]), lin(0, 2, 2, 0), None),
}

def at(cx, cy, a):
    return mm(mm(lin(1, 0, 0, 1, cx, cy), rot(a)), lin(1, 0, 0, 1, -cx, -cy))

AFFINE = {
    'id': (lambda: A2.Identity(), I3, TT.Identity),
    't': (lambda: A2.Translation(Vector2D(3, -2)), lin(1, 0, 0, 1, 3, -2), TT.Translation),
    't0': (lambda: A2.Translation(Vector2D(0, 0)), I3, None),
    'tx': (lambda: A2.Translation(Vector2D(-3, 0)), lin(1, 0, 0, 1, -3, 0), TT.Translation),
    'r90': (lambda: A2.Rotation(90), rot(90), TT.Rotation),
    'r-30': (lambda: A2.Rotation(-30), rot(-30), TT.Rotation),
    's2': (lambda: A2.Scale(2, 2), lin(2, 0, 0, 2), TT.Scale),
    'sdef': (lambda: A2.Scale(3), lin(3, 0, 0, 3), TT.Scale),
    's2,3': (lambda: A2.Scale(2, 3), lin(2, 0, 0, 3), TT.Shear),
    's10,-10': (lambda: A2.Scale(10, -10), lin(10, 0, 0, -10), TT.Shear),
    'P': (lambda: A2.Scale(-1, -1), lin(-1, 0, 0, -1), TT.Parity),
    'X': (lambda: A2.Scale(-1, 1), lin(-1, 0, 0, 1), TT.XParity),
    'Y': (lambda: A2.Scale(1, -1), lin(1, 0, 0, -1), TT.YParity),
    's1': (lambda: A2.Scale(1, 1), I3, TT.Identity),
    'ra90': (lambda: A2.RotationAt(Vector2D(1, 2), 90), at(1, 2, 90), None),
    'ra60': (lambda: A2.RotationAt(Vector2D(-4, 1), 60), at(-4, 1, 60), None),
    'ra0': (lambda: A2.RotationAt(Vector2D(0, 0), 45), rot(45), None),
    'ra180': (lambda: A2.RotationAt(Vector2D(1, 1), 180), at(1, 1, 180), None),
    'scr': (lambda: A2.Screen(7), lin(1, 0, 0, -1, 0, 7), None),
    'gen': (lambda: A2([1, 2, 3, -1, .5, 4, 0, 0, 1]), lin(1, 2, -1, .5, 3, 4), None),
    'lt': (lambda: A2([1, 0, 5, 0, 1, 0, 0, 0, 1]), lin(1, 0, 0, 1, 5, 0), None),
    'lty': (lambda: A2([1, 0, 0, 0, 1, 5, 0, 0, 1]), lin(1, 0, 0, 1, 0, 5), None),
    'lid': (lambda: A2([1, 0, 0, 0, 1, 0, 0, 0, 1]), I3, None),
    'lPt': (lambda: A2([-1, 0, 2, 0, -1, 3, 0, 0, 1]), lin(-1, 0, 0, -1, 2, 3), None),
    'lXt': (lambda: A2([-1, 0, 2, 0, 1, 0, 0, 0, 1]), lin(-1, 0, 0, 1, 2, 0), None),
    'lSt': (lambda: A2([2, 0, 2, 0, 2, 1, 0, 0, 1]), lin(2, 0, 0, 2, 2, 1), None),
    'cp': (lambda: A2(A2.RotationAt(Vector2D(1, 0), 30)), at(1, 0, 30), None),
}

POINTS = [(x, y) for x in (0, 1, -2, .5) for y in (0, 1, 3)]

def close(a, b):
    return abs(a - b) <= 1e-9*max(1, abs(a), abs(b))

def rows(t, affine):
    n = 3 if affine else 2
    a = t.array
    assert a.shape == (n, n)
    return [[float(a[i][j]) for j in range(n)] for i in range(n)]

def describes(kind, m, affine):
    """Does kind describe the reference matrix m?"""
    (a, b, tx), (c, d, ty) = m[0], m[1]
    z = lambda v: abs(v) <= 1e-9
    diag = z(b) and z(c)
    notr = z(tx) and z(ty)
    if kind == TT.Identity: return diag and z(a-1) and z(d-1) and notr
    if kind == TT.Scale: return diag and z(a-d)
    # a uniform scaling or a reflection is not sheared
    if kind == TT.Shear: return diag and not z(a-d) and not (z(abs(a)-1) and z(abs(d)-1))
    if kind == TT.Parity: return diag and z(a+1) and z(d+1) and notr
    if kind == TT.XParity: return diag and z(a+1) and z(d-1) and notr
    if kind == TT.YParity: return diag and z(a-1) and z(d+1) and notr
    if kind == TT.Rotation: return z(a-d) and z(b+c) and z(a*a + c*c - 1)
    if kind == TT.Translation: return diag and z(a-1) and z(d-1)
    return kind == TT.Generic

def verify(t, m, affine, ctx, what):
    got = rows(t, affine)
    n = 3 if affine else 2
    ok = all(close(got[i][j], m[i][j]) for i in range(n) for j in range(n))
    ctx.check(ok, '{}: matrix {} expected {}', what, got, m)
    ctx.check(describes(t.type, m, affine), '{}: kind {} does not describe {}', what, t.type, m)
    ctx.check(t.is_identity == (t.type == TT.Identity), 'is_identity')
    ctx.check([float(x) for x in t.to_list()] == [x for r in got for x in r], '{}: to_list', what)
    ctx.check(t.dimension == 2 and t.size == n, 'dimension')
    for p in POINTS:
        v = Vector2D(*p)
        r = t*v
        w = ap(m, p)
        ctx.check(type(r) is Vector2D and close(r.x, w[0]) and close(r.y, w[1]), '{}: maps {} to {} expected {}', what, p, r, w)
        if (v.x, v.y) != p:
            ctx.check(False, '{}: application modified the vector', what)
    if affine:
        for weight in (1, 0, 2): # a point, a direction, a point given by a weighted vector
            h = HomogeneousVector2D(Vector2D(1, 3))
            h.w = weight
            for h_, name in ((h, 'a vector'), (h.clone(), 'a clone')):
                r = t*h_
                w = [m[i][0] + 3*m[i][1] + weight*m[i][2] for i in (0, 1)]
                ctx.check(close(r.x, w[0]) and close(r.y, w[1]) and r.w == weight, '{}: {} of weight {} is mapped to {} of weight {}, expected {}', what, name, weight, r, r.w, w)
                ctx.check((h_.x, h_.y, h_.w) == (1, 3, weight), '{}: application modified the vector', what)
    (a, b, _), (c, d, _) = m[0], m[1]
    similar = (abs(a*b + c*d) < 1e-9 and abs(a*a + c*c - b*b - d*d) < 1e-9)
    for s in (1, 2.5):
        try:
            r = t*s
        except ValueError:
            ctx.check(t.type in (TT.Shear, TT.Generic), '{}: a length cannot be transformed by a {}', what, t.type)
        else:
            ctx.check(similar, '{}: a length was transformed by a sheared transformation', what)
            want = s*math.sqrt(abs(a*d - b*c))
            ctx.check(close(r, want), '{}: length {} becomes {} expected {}', what, s, r, want)
    again = rows(t, affine)
    ctx.check(again == got, '{}: application modified the transformation', what)

def single(case, ctx):
    affine, name = case
    make, m, kind = (AFFINE if affine else LINEAR)[name]
    t = make()
    ctx.state(case)
    verify(t, m, affine, ctx, name)
    if kind is not None:
        ctx.eq(t.type, kind, 'kind of {}'.format(name))
    # a transformation made from another is independent
    c = (A2 if affine else T2)(t)
    verify(c, m, affine, ctx, 'copy of ' + name)
    c *= (A2.Scale(2, 5) if affine else T2.Scale(2, 5))
    verify(t, m, affine, ctx, name + ' after its copy changed')

def chain(case, ctx):
    affine, names = case
    table = AFFINE if affine else LINEAR
    ts = [table[n][0]() for n in names]
    ms = [table[n][1] for n in names]
    m = I3
    t = None
    # left-nested, right-nested and in-place products
    prod = ts[0]; m = ms[0]
    for a, b in zip(ts[1:], ms[1:]):
        prod = prod*a
        m = mm(m, b)
    ctx.state([[round(x, 6) for x in r] for r in m])
    ctx.outcome(prod.type)
    verify(prod, m, affine, ctx, '*'.join(names))
    if len(ts) == 3:
        prod = ts[0]*(ts[1]*ts[2])
        verify(prod, m, affine, ctx, '{}*({}*{})'.format(*names))
    cls = A2 if affine else T2
    acc = cls(ts[-1]) if len(names) % 2 else table[names[-1]][0]()
    m2 = ms[-1]
    for a, b in zip(reversed(ts[:-1]), reversed(ms[:-1])):
        acc0 = acc
        acc *= a
        ctx.check(acc is acc0, 'in-place product returns another object')
        m2 = mm(b, m2)
    verify(acc, m, affine, ctx, 'in place ' + ' '.join(names))
    for a, b, n in zip(ts, ms, names):
        got = rows(a, affine)
        k = 3 if affine else 2
        ctx.check(all(close(got[i][j], b[i][j]) for i in range(k) for j in range(k)), 'product modified its factor {}', n)

def self_product(case, ctx):
    affine, name = case
    make, m, kind = (AFFINE if affine else LINEAR)[name]
    t = make()
    ctx.state(case)
    r = t*t
    verify(r, mm(m, m), affine, ctx, name + ' squared')
    r3 = r*t
    verify(r3, mm(mm(m, m), m), affine, ctx, name + ' cubed')
    t *= t
    verify(t, mm(m, m), affine, ctx, name + ' squared in place')

def angles(case, ctx):
    a, c = case
    ctx.state(case)
    verify(T2.Rotation(a), rot(a), False, ctx, 'Rotation({})'.format(a))
    verify(A2.Rotation(a), rot(a), True, ctx, 'Rotation({})'.format(a))
    verify(T2.Rotation(a)*T2.Rotation(c), rot(a + c), False, ctx, 'Rotation({})*Rotation({})'.format(a, c))
    verify(A2.RotationAt(Vector2D(c, 1), a), at(c, 1, a), True, ctx, 'RotationAt')
    v = Vector2D(c, 1)
    A2.RotationAt(v, a); A2.Translation(v)
    ctx.check((v.x, v.y) == (c, 1), 'construction modified its argument')
    r = A2.RotationAt(v, a)*v
    ctx.vec(r, (c, 1), 'centre of rotation moves')

def scales(case, ctx):
    x, y = case
    ctx.state(case)
    m = lin(x, 0, 0, y)
    for cls, affine in ((T2, False), (A2, True)):
        t = cls.Scale(x, y)
        verify(t, m, affine, ctx, 'Scale({}, {})'.format(x, y))
        want = (TT.Identity if (x, y) == (1, 1) else TT.Parity if (x, y) == (-1, -1) else TT.XParity if (x, y) == (-1, 1)
                else TT.YParity if (x, y) == (1, -1) else TT.Scale if x == y else TT.Shear)
        ctx.eq(t.type, want, 'kind')
        if x == y:
            verify(cls.Scale(x), m, affine, ctx, 'Scale({})'.format(x))

def bad(case, ctx):
    ctx.state(case)
    f = {
        'short list': lambda: T2([1, 2, 3]),
        'long list': lambda: T2([1]*9),
        'affine short list': lambda: A2([1]*4),
        'shape': lambda: T2(np.identity(3)),
        'affine shape': lambda: A2(np.identity(2)),
        'affine from linear': lambda: A2(T2.Rotation(3)),
        'linear from affine': lambda: T2(A2.Rotation(3)),
        'affine*linear': lambda: A2.Rotation(3)*T2.Rotation(3),
        'times text': lambda: T2.Rotation(3)*'a',
    }[case]
    ctx.raises(ValueError, f, case)

def spaces(tier):
    from mc.core import Space
    n = 3 if tier == 'quick' else 4
    def chains():
        for affine, table in ((False, LINEAR), (True, AFFINE)):
            for k in range(2, n + 1):
                for names in itertools.product(table, repeat=k):
                    yield (affine, names)
    singles = [(a, k) for a, t in ((False, LINEAR), (True, AFFINE)) for k in t]
    sc = (1, -1, 0, 2, -2, .5, 3)
    return [
        Space('single', singles, single, 'every transformation of the alphabet and its copy'),
        Space('self', singles, self_product, 'powers'),
        Space('angles', [(a, c) for a in range(-720, 721, 15) for c in (0, 30, 45, 90, -90, 180, 200, -7)], angles, 'rotations by multiples of 15 degrees'),
        Space('scales', [(x, y) for x in sc for y in sc], scales, 'scale factors'),
        Space('chain', chains, chain, 'all products of up to {} transformations, linear ({}) and affine ({}), as * and *='.format(n, len(LINEAR), len(AFFINE))),
        Space('bad', ['short list', 'long list', 'affine short list', 'shape', 'affine shape', 'affine from linear', 'linear from affine', 'affine*linear', 'times text'], bad, 'refused operands'),
    ]
