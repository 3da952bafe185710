"""C18: B-splines against the exact Cox-de Boor definition."""
import itertools
from fractions import Fraction as F
from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
from Patro.GeometryEngine.Spline import BSpline2D, QuadraticUniformSpline2D, CubicUniformSpline2D
from Patro.GeometryEngine.Vector import Vector2D
from mc import scale

PROPERTY = 'C18'
ASSUMPTIONS = ['clamped knot vectors with small integer knots, small integer control points; the oracle evaluates the Cox-de Boor recursion with rational numbers, with the limit from the left at the end of the domain']

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def basis(knots, i, k, t, last):
    if k == 0:
        if t == knots[-1]:
            return 1 if i == last else 0
        return 1 if knots[i] <= t < knots[i+1] else 0
    r = F(0)
    d = knots[i+k] - knots[i]
    if d:
        r += F(t - knots[i])/d*basis(knots, i, k-1, t, last)
    d = knots[i+k+1] - knots[i+1]
    if d:
        r += F(knots[i+k+1] - t)/d*basis(knots, i+1, k-1, t, last)
    return r

_memo = {}

def weights(degree, knots, t):
    key = (degree, knots, t)
    if key not in _memo:
        last = max(i for i in range(len(knots)-1) if knots[i] < knots[i+1])
        _memo[key] = [basis(knots, i, degree, t, last) for i in range(len(knots)-degree-1)]
    return _memo[key]

def at(degree, knots, pts, t):
    w = weights(degree, knots, t)
    return (float(sum(a*p[0] for a, p in zip(w, pts))), float(sum(a*p[1] for a, p in zip(w, pts))))

def params(knots):
    ks = sorted(set(knots))
    out = list(map(F, ks))
    for a, b in zip(ks, ks[1:]):
        out += [F(a) + F(b-a)*k/8 for k in (1, 4, 7)]
    return sorted(out)

def uniform(degree, n):
    return tuple([0]*degree + list(range(n-degree+1)) + [n-degree]*degree)

def num(t):
    return int(t) if t.denominator == 1 else float(t)

def same(ctx, s, degree, knots, pts, msg, ts=None):
    for t in ts or params(knots):
        want = at(degree, knots, pts, t)
        for u in {num(t), float(t)}:
            ctx.vec(s.point_at_t(u), want, '{}: point at {!r}'.format(msg, u))
            ctx.vec(s.point_at_t(u, naive=True), want, '{}: naive point at {!r}'.format(msg, u))

def spline(case, ctx):
    degree, pts, knots = case
    pts = [tuple(p) for p in pts]
    n = len(pts)
    ctx.state(case)
    if knots is None:
        s = BSpline2D([V(p) for p in pts], degree)
        knots = uniform(degree, n)
        ctx.eq(tuple(s.knots), knots, 'uniform knots')
        ctx.eq((s.start_knot, s.end_knot, s.number_of_spans, bool(s.uniform)), (0, n-degree, n-degree, True), 'domain')
        isuni = True
    else:
        knots = tuple(knots)
        s = BSpline2D([V(p) for p in pts], degree, knots=knots)
        ctx.eq((s.start_knot, s.end_knot), (knots[0], knots[-1]), 'domain')
        isuni = False
    ctx.eq((s.degree, s.order, s.number_of_points), (degree, degree+1, n), 'degree')
    same(ctx, s, degree, knots, pts, 'spline')
    for out in (knots[0] - .5, knots[-1] + .5):
        ctx.raises(ValueError, lambda: s.point_at_t(out), 'parameter {} out of the domain'.format(out))
    for k in set(knots):
        ctx.eq(s.knot_multiplicity(k), knots.count(k), 'multiplicity of {}'.format(k))
    ctx.eq([xy(p) for p in s.clone().points], pts, 'clone')
    same(ctx, s.clone(), degree, knots, pts, 'clone', [F(knots[0]), F(knots[-1]), F(knots[0] + 3*knots[-1])/4])
    r = s.reverse()
    for t in params(knots):
        ctx.vec(r.point_at_t(num(knots[0] + knots[-1] - t)), at(degree, knots, pts, t), 'reverse')
    # knot insertion, twice
    ins = sorted({F(knots[0]) + F(knots[-1]-knots[0])*k/16 for k in (3, 8, 13)} | {F(k) for k in knots[degree+1:-degree-1]})
    ts = params(knots)
    for t in ins:
        a = s.insert_knot(num(t))
        ctx.eq((a.number_of_points, a.degree), (n+1, degree), 'number of points after an insertion')
        ctx.eq([F(k) for k in a.knots], sorted([F(k) for k in knots] + [t]), 'knots after an insertion')
        for u in ts:
            ctx.vec(a.point_at_t(num(u)), at(degree, knots, pts, u), 'point at {} after inserting {}'.format(u, t))
        for t2 in ins[::2]:
            b = a.insert_knot(num(t2))
            for u in ts[::2]:
                ctx.vec(b.point_at_t(num(u)), at(degree, knots, pts, u), 'point at {} after inserting {} and {}'.format(u, t, t2))
    if isuni:
        f = s.to_bezier_form()
        for u in ts:
            ctx.vec(f.point_at_t(num(u)), at(degree, knots, pts, u), 'point at {} of the Bezier form'.format(u))
        if degree in (2, 3):
            curves = s.to_bezier()
            ctx.check(len(curves) == n - degree and all(isinstance(c, {2: QuadraticBezier2D, 3: CubicBezier2D}[degree]) for c in curves), 'number of Bezier curves: {}', len(curves))
            for i, c in enumerate(curves):
                for k in (0, 1, 3, 4):
                    ctx.vec(c.point_at_t(k/4), at(degree, knots, pts, i + F(k, 4)), 'Bezier curve {} at {}'.format(i, k/4))
    ctx.eq([xy(p) for p in s.points], pts, 'a query modified the spline'); ctx.eq(tuple(s.knots), knots, 'a query modified the knots')

def refused(case, ctx):
    """a spline needs as many points as its order and knots in order"""
    degree, n = case
    ctx.state(case)
    pts = [V((i, i*i % 3)) for i in range(n)]
    if n <= degree:
        ctx.raises(ValueError, lambda: BSpline2D(pts, degree), '{} points, degree {}'.format(n, degree))
        return
    s = BSpline2D(pts, degree)
    knots = list(s.knots)
    for i, j in itertools.combinations(range(len(knots)), 2):
        k = list(knots)
        k[i], k[j] = k[j], k[i]
        if k != knots:
            ctx.raises(ValueError, lambda: BSpline2D(pts, degree, knots=k), 'knots {}'.format(k))
    other = BSpline2D(pts, degree, knots=knots)
    for k in (s, other):
        ctx.eq([xy(p) for p in k.points], [xy(p) for p in pts], 'points')
    ctx.raises(ValueError, lambda: BSpline2D(pts, degree, knots=[2*x for x in knots]).to_bezier_form(), 'Bezier form of a spline given by its knots')
    ctx.outcome(n)

def uniform_segment(case, ctx):
    pts = [tuple(p) for p in case]
    ctx.state(case)
    n = len(pts)
    degree = n - 1
    knots = tuple(range(-degree, degree+2))
    s = {3: QuadraticUniformSpline2D, 4: CubicUniformSpline2D}[n](*[V(p) for p in pts])
    b = s.to_bezier()
    for k in (0, 1, 2, 5, 8):
        t = F(k, 8)
        w = [basis(knots, i, degree, t, -1) for i in range(n)]
        want = (float(sum(a*p[0] for a, p in zip(w, pts))), float(sum(a*p[1] for a, p in zip(w, pts))))
        ctx.vec(s.point_at_t(float(t)), want, 'point at {}'.format(t))
        ctx.vec(b.point_at_t(float(t)), want, 'Bezier curve at {}'.format(t))
    if n == 4:
        # and back
        c = b.to_spline()
        for p, q in zip(c.points, pts):
            ctx.vec(p, q, 'spline of the Bezier curve')
        c = CubicBezier2D(*[V(p) for p in pts])
        z = c.to_spline()
        for k in (0, 3, 8):
            ctx.vec(z.point_at_t(k/8), xy(c.point_at_t(k/8)), 'spline of a Bezier curve')

def scaled(case, ctx):
    degree, pts, knots = case
    ctx.state(('scale', case))
    def measures(k):
        s = BSpline2D([V((k*p[0], k*p[1])) for p in pts], degree, knots=knots)
        ks = tuple(s.knots)
        ts = [num(t) for t in params([F(x) for x in ks])]
        yield 'points', 1, lambda: [s.point_at_t(t) for t in ts]
        yield 'naive points', 1, lambda: [s.point_at_t(t, naive=True) for t in ts]
        yield 'reverse', 1, lambda: [s.reverse().point_at_t(t) for t in ts]
        for t in ts[1:-1:2]:
            yield 'points after an insertion', 1, lambda: s.insert_knot(t).points
        yield 'bounding box', 1, lambda: [s.bounding_box.x, s.bounding_box.y]
        if knots is None:
            yield 'Bezier form', 1, lambda: s.to_bezier_form().points
            if degree in (2, 3):
                yield 'Bezier curves', 1, lambda: [c.points for c in s.to_bezier()]
        if len(pts) == 4 and degree == 3:
            b = CubicBezier2D(*[V((k*p[0], k*p[1])) for p in pts])
            yield 'spline of a Bezier curve', 1, lambda: b.to_spline().points
            u = CubicUniformSpline2D(*[V((k*p[0], k*p[1])) for p in pts])
            yield 'uniform spline', 1, lambda: [u.point_at_t(t/8) for t in range(9)] + [u.to_bezier().points]
        if len(pts) == 3 and degree == 2:
            u = QuadraticUniformSpline2D(*[V((k*p[0], k*p[1])) for p in pts])
            yield 'uniform spline', 1, lambda: [u.point_at_t(t/8) for t in range(9)] + [u.to_bezier().points]
    scale.covariant(ctx, measures)

def spaces(tier):
    from mc.core import Space
    quick = tier == 'quick'
    A = [(0, 0), (1, 2), (3, -1), (2, 2)]
    A2 = [(0, 0), (4, 1), (-1, 3)]
    g3 = [(x, y) for x in range(3) for y in range(3)]
    def uni():
        for degree in (1, 2, 3):
            for n in range(degree+1, 6 if quick else 7):
                for pts in itertools.product(A, repeat=n):
                    yield degree, pts, None
        for degree in (4, 5):
            for pts in itertools.product(A2[:2], repeat=degree+2):
                yield degree, pts, None
        for degree in (2, 3):
            for n in (7, 9):
                for pts in itertools.product(A2[:2] if n > 7 or quick else A2, repeat=n):
                    yield degree, pts, None
    def knotted():
        # every clamped knot vector with interior knots in 1..3 of multiplicity up to the degree
        for degree in (1, 2, 3):
            for n in range(degree+1, 6 if quick else 7):
                for inner in itertools.combinations_with_replacement((1, 2, 3), n - degree - 1):
                    if any(inner.count(k) > degree for k in inner):
                        continue
                    for lo, hi in ((0, 4), (-1, 7)):
                        knots = [lo]*(degree+1) + list(inner) + [hi]*(degree+1)
                        for pts in itertools.product(A2 if quick else A, repeat=n):
                            yield degree, pts, knots
    def segs():
        yield from itertools.product(g3, repeat=3)
        yield from itertools.product(A2 + [(-2, -5), (0, 1)], repeat=4)
    return [
        Space('uniform', uni, spline, 'uniform splines of degree 1 to 3 with up to {} points among 4, of degree 4 and 5, and of 7 and 9 points among 2 (3)'.format(5 if quick else 6)),
        Space('knots', knotted, spline, 'every clamped knot vector with interior knots in 1..3 with multiplicity up to the degree, two domains, up to {} points among {}'.format(5 if quick else 6, 3 if quick else 4)),
        Space('refused', [[d, n] for d in range(1, 6) for n in range(1, 8)], refused, 'degrees 1 to 5 x 1 to 7 points, knot vectors with every pair of knots exchanged'),
        Space('segments', segs, uniform_segment, 'every quadratic uniform segment on a 3x3 grid and cubic one on 5 points'),
        Space('scales', lambda: ((d, pts, kn) for d, n, kn in ((1, 3, None), (2, 3, None), (3, 4, None), (2, 5, None), (3, 5, None), (2, 5, [0, 0, 0, 1, 3, 4, 4, 4]), (3, 5, [0]*4 + [2] + [4]*4)) for pts in itertools.product(A, repeat=n) if n < 5 or pts[0] == A[0] and pts[3] == A[1]), scaled, 'splines at 5 scales'),
    ]
