"""C10: vector arithmetic against exact plane geometry."""
import itertools, math
from fractions import Fraction as F

import numpy as np
from Patro.GeometryEngine import Vector as VM
from Patro.GeometryEngine.Vector import Vector2D, NormalisedVector2D, HomogeneousVector2D
from mc import scale

PROPERTY = 'C10'
ASSUMPTIONS = ['floating point results are compared with a relative tolerance of 1e-9 (angles: 1e-5 degree)',
               'parallel/orthogonal predicates are judged outside the code\'s absolute tolerance of 1e-7']

COORDS = (0, 1, -1, 2, -3, .5, -.25, 10, 1000, -0.001)
COORDS_T = COORDS + (-1000, 1e-3, 3, -2, 7)
ANGLES = (0, 30, 45, 60, 90, 120, 135, 150, 180, 210, 225, 270, 300, 315, 330, 360, -1, -30, -45, -90, -120, -180, -270, 10, 179, 181, 405, 720)
SCALES = (0, 1, -1, 2, -2, .5, 10, 1/3)

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def true_angle(x, y):
    return math.degrees(math.atan2(y, x))

def angle_eq(a, b, tol=1e-5):
    d = (a - b) % 360
    return min(d, 360 - d) <= tol

def same(ctx, v, p, what):
    if xy(v) != (p[0], p[1]):
        ctx.check(False, what + ' modified its operand: {} -> {}', p, xy(v))

def unary(case, ctx):
    x, y = case
    p = (x, y)
    v = V(p)
    ctx.state(('u', p))
    fx, fy = F(x), F(y)
    ctx.eq(xy(v), p, 'coordinates')
    ctx.eq(len(v), 2, 'len')
    ctx.eq([float(c) for c in v], [x, y], 'iteration')
    ctx.eq((float(v[0]), float(v[1])), p, 'indexing')
    ctx.close(v.magnitude_square, float(fx*fx + fy*fy), 'magnitude square', 1e-9)
    ctx.close(v.magnitude, math.hypot(x, y), 'magnitude', 1e-9)
    ctx.eq(bool(v), p != (0, 0), 'truth value')
    for name, want in (('normal', (-y, x)), ('anti_normal', (y, -x)), ('permute', (y, x)), ('parity', (-x, -y))):
        r = getattr(v, name)
        ctx.eq(xy(r), want, name)
        r.x = 77
        same(ctx, v, p, name)
    ctx.eq(xy(-v), (-x, -y), 'negation')
    ctx.eq(xy(abs(v)), (abs(x), abs(y)), 'abs')
    w = +v
    ctx.eq(xy(w), p, 'unary plus')
    w.x = 55
    same(ctx, v, p, 'unary plus')
    c = v.clone()
    ctx.check(c == v and type(c) is type(v), 'clone differs')
    c.y = 66
    same(ctx, v, p, 'clone')
    d = Vector2D(v)
    d += Vector2D(1, 1)
    same(ctx, v, p, 'copy constructor')
    e = Vector2D(v.v)
    e.x = 12
    same(ctx, v, p, 'array constructor')
    l = [x, y]
    e = Vector2D(l); e.x = 12
    ctx.eq(l, [x, y], 'list constructor aliases')
    ctx.eq(v.to_int_list(), [int(x), int(y)], 'to_int_list')
    ivec = VM.Vector2DInt(int(x), int(y))
    ctx.eq((ivec.x, ivec.y), (int(x), int(y)), 'integer vector coordinates')
    bi = ivec.bounding_box
    ctx.eq((bi.x.inf, bi.x.sup, bi.y.inf, bi.y.sup), (int(x), int(x), int(y), int(y)), 'integer vector bounding box')
    r = v.rint()
    ctx.eq((r.x, r.y), (round(x), round(y)), 'rint')
    ctx.check(isinstance(r.x, int) and isinstance(r.y, int), 'rint type')
    h = HomogeneousVector2D(v)
    ctx.eq([float(c) for c in h.v], [x, y, 1], 'homogeneous coordinates')
    ctx.eq(xy(h.to_vector()), p, 'homogeneous to vector')
    h.w = 3
    ctx.eq([float(c) for c in h.v], [x, y, 3], 'homogeneous weight')
    h.x = 91
    same(ctx, v, p, 'homogeneous vector')
    b = v.bounding_box
    ctx.check((b.x.inf, b.x.sup, b.y.inf, b.y.sup) == (x, x, y, y), 'bounding box {}', b)
    if p == (0, 0):
        ctx.raises(Exception, lambda: v.orientation, 'orientation of the null vector')
    else:
        o = v.orientation
        ctx.check(-180 < o <= 180 and angle_eq(o, true_angle(x, y)), 'orientation {} of {}', o, p)
        ctx.eq(o, v.orientation, 'orientation repeated')
        n = v.to_normalised()
        m = math.hypot(x, y)
        ctx.vec(n, (x/m, y/m), 'to_normalised', 1e-9)
        same(ctx, v, p, 'to_normalised')
        q = v.clone()
        r = q.normalise()
        ctx.check(r is q, 'normalise returns self')
        ctx.vec(q, (x/m, y/m), 'normalise', 1e-9)
        if x:
            ctx.close(v.tan, y/x, 'tan', 1e-9)
        if y:
            ctx.close(v.inverse_tan, x/y, 'inverse tan', 1e-9)
    for s in SCALES:
        ctx.vec(v*s, (x*s, y*s), 'v*s', 1e-9)
        ctx.vec(s*v, (x*s, y*s), 's*v', 1e-9)
        q = v.clone(); q *= s
        ctx.vec(q, (x*s, y*s), 'v *= s', 1e-9)
        if s:
            ctx.vec(v/s, (x/s, y/s), 'v/s', 1e-9)
            q = v.clone(); q /= s
            ctx.vec(q, (x/s, y/s), 'v /= s', 1e-9)
        for s2 in (1, -2, .5):
            ctx.vec(v.scale(s, s2), (x*s, y*s2), 'scale', 1e-9)
            if s:
                ctx.vec(v.divide(s, s2), (x/s, y/s2), 'divide', 1e-9)
    same(ctx, v, p, 'scaling')
    ctx.outcome(xy(v))

def rotation(case, ctx):
    (x, y), a = case
    p = (x, y)
    v = V(p)
    ctx.state(('r', p, a))
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    want = (c*x - s*y, s*x + c*y)
    ctx.vec(v.rotate(a), want, 'rotate', 1e-9)
    ctx.vec(v.rotate(a, counter_clockwise=True), want, 'rotate ccw', 1e-9)
    ctx.vec(v.rotate(a, counter_clockwise=False), (c*x + s*y, -s*x + c*y), 'rotate cw', 1e-9)
    ctx.vec(v.rotate(a).rotate(-a), p, 'rotate back', 1e-9)
    same(ctx, v, p, 'rotate')
    if p != (0, 0):
        o = v.rotate(a).orientation
        ctx.check(-180.0000001 <= o <= 180 and angle_eq(o, true_angle(x, y) + a), 'orientation after rotation {}', o)

def polar(case, ctx):
    a, r, r2 = case
    ctx.state(('p', a, r, r2))
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    v = Vector2D.from_angle(a)
    ctx.vec(v, (c, s), 'from_angle', 1e-12)
    ctx.check(angle_eq(v.orientation, a), 'orientation of from_angle({}) is {}', a, v.orientation)
    ctx.vec(Vector2D.from_polar(r, a), (r*c, r*s), 'from_polar', 1e-12)
    ctx.vec(Vector2D.from_ellipse(r, r2, a), (r*c, r2*s), 'from_ellipse', 1e-12)

def binary(case, ctx):
    p, q = case
    (ax, ay), (bx, by) = p, q
    u, v = V(p), V(q)
    ctx.state(('b', p, q))
    fax, fay, fbx, fby = F(ax), F(ay), F(bx), F(by)
    dot = float(fax*fbx + fay*fby)
    cross = float(fax*fby - fay*fbx)
    ctx.eq(xy(u + v), (ax + bx, ay + by), 'u+v')
    ctx.eq(xy(u - v), (ax - bx, ay - by), 'u-v')
    ctx.check(close(u.dot(v), dot, p, q), 'dot {} expected {}', u.dot(v), dot)
    ctx.check(close(u.cross(v), cross, p, q), 'cross {} expected {}', u.cross(v), cross)
    ctx.check(close(u.perp_dot(v), cross, p, q), 'perp_dot {} expected {}', u.perp_dot(v), cross)
    ctx.eq(u == v, tuple(p) == tuple(q), '==')
    ctx.eq(u != v, tuple(p) != tuple(q), '!=')
    near = all(abs(a - b) <= 1e-8 + 1e-5*abs(b) for a, b in zip(p, q))
    ctx.eq(bool(u.almost_equal(v)), near, 'almost_equal')
    ctx.vec(Vector2D.middle(u, v), ((ax + bx)/2, (ay + by)/2), 'middle', 1e-12)
    w = u.clone(); w0 = w
    w += v
    ctx.check(w is w0 and xy(w) == (ax + bx, ay + by), '+=')
    w = u.clone(); w0 = w
    w -= v
    ctx.check(w is w0 and xy(w) == (ax - bx, ay - by), '-=')
    if abs(cross) > 2e-7 or cross == 0:
        ctx.eq(bool(u.is_parallel(v)), cross == 0, 'is_parallel')
        t, c = u.is_parallel(v, return_cross=True)
        ctx.check(bool(t) == (cross == 0) and close(c, cross, p, q), 'is_parallel with cross {} {}', t, c)
    if abs(dot) > 2e-7 or dot == 0:
        ctx.eq(bool(u.is_orthogonal(v)), dot == 0, 'is_orthogonal')
    ma, mb = math.hypot(ax, ay), math.hypot(bx, by)
    if mb:
        ctx.check(close(u.projection_on(v), dot/mb, p, q), 'projection {} expected {}', u.projection_on(v), dot/mb)
        ctx.check(close(u.deviation_with(v), cross/-mb, p, q), 'deviation {} expected {}', u.deviation_with(v), -cross/mb)
    if ma and mb:
        ctx.close(u.cos_with(v), dot/ma/mb, 'cos_with', 1e-9)
        ctx.close(u.sin_with(v), -cross/ma/mb, 'sin_with', 1e-9)
        a = u.angle_with(v)
        want = true_angle(ax, ay) - true_angle(bx, by)
        ctx.check(-180 <= a <= 180 and angle_eq(a, want), 'angle_with {} expected {}', a, want)
        a = u.orientation_with(v)
        ctx.check(-180 <= a <= 180 and angle_eq(a, want), 'orientation_with {} expected {}', a, want)
    if xy(u) != tuple(p) or xy(v) != tuple(q):
        ctx.check(False, 'a binary operation modified its operand')
    ctx.outcome((dot, cross))

def close(a, b, p, q):
    scale = max(1e-3, math.hypot(*p)*math.hypot(*q))
    return abs(a - b) <= 1e-9*max(scale, abs(b))

# Histories of operations on two variables, against a plain reference model with the same aliasing

OPS = [('iadd', 0, 1), ('iadd', 1, 0), ('iadd', 0, 0), ('isub', 0, 1), ('isub', 1, 0), ('isub', 1, 1),
       ('imul', 0, 2), ('imul', 1, -.5), ('itruediv', 0, 2), ('itruediv', 1, -4),
       ('add', 0, 1), ('sub', 1, 0), ('mul', 0, 3), ('neg', 1, 0), ('clone', 0, 1), ('copy', 1, 0), ('pos', 0, 1), ('alias', 1, 0),
       ('setx', 0, 5), ('sety', 1, -7), ('setitem', 0, 9), ('normal', 0, 1), ('parity', 1, 1), ('permute', 0, 0), ('query', 0, 1), ('middle', 0, 1), ('normalise', 1, 0)]

def history(case, ctx):
    start, ops = case
    cells = [V(p) for p in start]
    model = [list(p) for p in start]
    for k in ops:
        op, i, j = OPS[k]
        a = cells[i]
        m = model[i]
        if op == 'iadd':
            n = list(model[j]); a += cells[j]; cells[i] = a; m[0] += n[0]; m[1] += n[1]
        elif op == 'isub':
            n = list(model[j]); a -= cells[j]; cells[i] = a; m[0] -= n[0]; m[1] -= n[1]
        elif op == 'imul':
            a *= j; cells[i] = a; m[0] *= j; m[1] *= j
        elif op == 'itruediv':
            a /= j; cells[i] = a; m[0] /= j; m[1] /= j
        elif op == 'add':
            cells[i] = a + cells[j]; model[i] = [m[0] + model[j][0], m[1] + model[j][1]]
        elif op == 'sub':
            cells[i] = a - cells[j]; model[i] = [m[0] - model[j][0], m[1] - model[j][1]]
        elif op == 'mul':
            cells[i] = a * j; model[i] = [m[0]*j, m[1]*j]
        elif op == 'neg':
            cells[i] = -a; model[i] = [-m[0], -m[1]]
        elif op == 'clone':
            cells[j] = a.clone(); model[j] = list(m)
        elif op == 'copy':
            cells[j] = Vector2D(a); model[j] = list(m)
        elif op == 'pos':
            cells[j] = +a; model[j] = list(m)
        elif op == 'alias':
            cells[j] = a; model[j] = m
        elif op == 'setx':
            a.x = j; m[0] = j
        elif op == 'sety':
            a.y = j; m[1] = j
        elif op == 'setitem':
            a[1] = j; m[1] = j
        elif op == 'normal':
            cells[j] = a.normal; model[j] = [-m[1], m[0]]
        elif op == 'parity':
            cells[j] = a.parity; model[j] = [-m[0], -m[1]]
        elif op == 'permute':
            cells[j] = a.permute; model[j] = [m[1], m[0]]
        elif op == 'middle':
            cells[j] = Vector2D.middle(a, cells[j]); model[j] = [(m[0] + model[j][0])/2, (m[1] + model[j][1])/2]
        elif op == 'normalise':
            r = math.hypot(*m)
            if r:
                a.normalise(); m[0] /= r; m[1] /= r
        elif op == 'query':
            b = cells[j]
            a.magnitude, a.dot(b), a.cross(b), a.is_parallel(b), a == b, a.almost_equal(b), a.bounding_box, a.rint(), a.rotate(30), a.scale(2, 3), a.divide(2, 3)
            if a.magnitude and b.magnitude:
                a.orientation, a.angle_with(b), a.to_normalised(), a.projection_on(b), a.deviation_with(b)
        for k2 in (0, 1):
            ctx.vec(cells[k2], model[k2], 'after {} {}'.format([OPS[z] for z in ops], 'variable %d' % k2), 1e-9)
            ctx.close(cells[k2].magnitude, math.hypot(*model[k2]), 'magnitude', 1e-9)
    ctx.state((model, cells[0] is cells[1]))

def lists(case, ctx):
    ctx.state(case)
    vs = Vector2D.from_list(case)
    ctx.eq([xy(v) for v in vs], [tuple(p) for p in case], 'from_list')
    vs = Vector2D.from_coordinates(*case)
    ctx.eq([xy(v) for v in vs], [tuple(p) for p in case], 'from_coordinates')

def bad(case, ctx):
    ctx.state(('bad', case))
    args = {'none': (), 'three': (1, 2, 3), 'one': (1,), 'list3': ([1, 2, 3],), 'list1': ([1],)}[case]
    ctx.raises(ValueError, lambda: Vector2D(*args), 'construction from ' + case)

def scaled(case, ctx):
    p, q = case
    ctx.state(('scale', case))
    def measures(k):
        u, v = V((k*p[0], k*p[1])), V((k*q[0], k*q[1]))
        yield 'magnitude', 1, lambda: [u.magnitude, (u - v).magnitude]
        yield 'square', 2, lambda: [u.magnitude_square, u.dot(v), u.cross(v), u.perp_dot(v)]
        yield 'orientation', 0, lambda: [u.orientation, v.orientation]
        yield 'normalised', 0, lambda: [u.to_normalised(), v.clone().normalise()]
        yield 'angle', 0, lambda: [u.angle_with(v), u.orientation_with(v), u.cos_with(v), u.sin_with(v)]
        yield 'projection', 1, lambda: [u.projection_on(v), u.deviation_with(v)]
        yield 'equal', 0, lambda: [u == v, u != v, bool(u)]
        yield 'vectors', 1, lambda: [u + v, u - v, -u, u.normal, u.anti_normal, u.permute, u.parity, u.rotate(30), u.rotate(200), Vector2D.middle(u, v), u*3, u/3, u.scale(2, 3), u.bounding_box.x, u.bounding_box.y, Vector2D.from_polar(k*3, 40)]
    scale.covariant(ctx, measures, scale.SCALES_T)

# neighbours: vectors which differ by a few units in the last place to one percent

DELTAS = [0.] + [s*10.**-k for k in (2, 4, 6, 8, 10, 12) for s in (1, -1)] + ['ulp']

def neighbours(case, ctx):
    p, dx, dy = case
    d = lambda x, e: math.nextafter(x, math.inf) if e == 'ulp' else x + e*max(abs(x), 1)
    q = (d(p[0], dx), d(p[1], dy))
    ctx.state((p, q))
    u, v = Vector2D(*p), Vector2D(*q)
    ctx.eq(bool(u == v), p == q, '{} == {}'.format(p, q))
    ctx.eq(bool(u != v), p != q, '{} != {}'.format(p, q))
    for rtol, atol in ((None, None), (0, 0), (0, 1e-3), (1e-9, 0), (1e-7, 1e-9), (.1, 0)):
        r, a = (1e-5, 1e-8) if rtol is None else (rtol, atol)
        got = u.almost_equal(v) if rtol is None else u.almost_equal(v, rtol, atol)
        named = got if rtol is None else u.almost_equal(v, atol=atol, rtol=rtol)
        gaps = [(abs(F(x) - F(y)), F(a) + F(r)*abs(F(y))) for x, y in zip(p, q)]
        # not at the very limit
        if all(abs(g - t) > F(1, 10**6)*t or not t for g, t in gaps):
            want = all(g <= t for g, t in gaps)
            ctx.eq((bool(got), bool(named)), (want, want), 'almost_equal {} {} tolerances {} {}'.format(p, q, rtol, atol))
    ctx.outcome((p == q, dx == dy))

def spaces(tier):
    from mc.core import Space
    coords = COORDS_T
    vecs = [(x, y) for x in coords for y in coords]
    small = [(x, y) for x in (0, 1, -2) for y in (0, -1, 3)]
    angles = ANGLES if tier == 'quick' else tuple(range(-720, 721, 5)) + ANGLES
    depth = 3 if tier == 'quick' else 4
    def histories():
        for start in [((1, 2), (-3, .5)), ((0, 4), (2, 0))]:
            for n in range(1, depth + 1):
                for ops in itertools.product(range(len(OPS)), repeat=n):
                    yield (start, ops)
    return [
        Space('unary', vecs, unary, 'all vectors of the coordinate alphabet {}'.format(coords)),
        Space('rotation', [(p, a) for p in vecs for a in angles], rotation, 'vectors x {} angles'.format(len(angles))),
        Space('polar', [(a, r, s) for a in angles for r in (1, 2, .5, 10, 0) for s in (1, 3)], polar, 'angles x radii'),
        Space('binary', lambda: itertools.product(vecs, vecs), binary, 'all ordered pairs of vectors'),
        Space('history', histories, history, 'all operation sequences up to length {} over {} operations on two variables'.format(depth, len(OPS))),
        Space('lists', [list(s) for n in (0, 1, 2, 3) for s in itertools.product(small[:4], repeat=n)], lists, 'lists up to three points'),
        Space('bad', ['none', 'three', 'one', 'list3', 'list1'], bad, 'malformed constructions'),
        Space('neighbours', lambda: itertools.product(itertools.product((0., 1., -2., 1e-7, 1000., -1e6), repeat=2), DELTAS, DELTAS), neighbours, 'vectors x relative differences of each coordinate down to the last place'),
        Space('scales', lambda: [(p, q) for p in itertools.product((0, 1, -2, .75), repeat=2) for q in itertools.product((0, -1, 3, .5), repeat=2) if any(p) and any(q)], scaled, 'pairs of vectors at 8 scales'),
    ]
