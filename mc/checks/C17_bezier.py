"""C17: Bezier curves against their exact polynomials."""
import itertools, math, logging
from fractions import Fraction as F
import numpy as np
from mc import exact as X
from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Vector import Vector2D
from mc import scale

PROPERTY = 'C17'
ASSUMPTIONS = ['control points have small integer coordinates, so that polynomials, root counts (Sturm) and areas of the oracle are exact',
               'arc lengths are compared with a numerical integral: relative tolerance 1e-5 for quadratic curves, and for cubic curves, whose length is an approximation by design, the tolerance stated in the space',
               'tangents are compared where the derivative of the curve is not null']

logging.disable(logging.CRITICAL)

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

N = 1500
# Gauss-Legendre with 4 points on N panels
_x, _w = np.polynomial.legendre.leggauss(4)

def arc_length(px, py, t):
    """integral of the speed on [0, t]"""
    dx, dy = [np.polynomial.polynomial.Polynomial([float(c) for c in X.pder(p)] or [0.]) for p in (px, py)]
    h = t/N
    s = (np.arange(N)[:, None]*h + h*(_x+1)/2)
    v = np.hypot(dx(s), dy(s))
    return float((v*_w).sum()*h/2)

def line_function(px, py, line):
    (a, u) = line
    return X.padd([u[0]*c for c in X.padd(py, [a[1]], -1)], [u[1]*c for c in X.padd(px, [a[0]], -1)], -1)

CLS = {3: QuadraticBezier2D, 4: CubicBezier2D}
TS = [F(0), F(1, 4), F(1, 2), F(1, 3), F(7, 8), F(1)]

class Curve:
    def __init__(self, pts):
        self.pts = [tuple(p) for p in pts]
        self.px = X.bezier_poly([p[0] for p in self.pts])
        self.py = X.bezier_poly([p[1] for p in self.pts])
        self.obj = CLS[len(pts)](*[V(p) for p in pts])
    def at(self, t):
        t = F(t)
        return (float(X.peval(self.px, t)), float(X.peval(self.py, t)))
    def d(self, t):
        t = F(t)
        return (X.peval(X.pder(self.px), t), X.peval(X.pder(self.py), t))

def same(ctx, obj, at, lo, hi, msg):
    """obj on [0,1] traces the curve at on [lo,hi]"""
    for s in (F(0), F(1, 3), F(1, 2), F(7, 8), F(1)):
        ctx.vec(obj.point_at_t(float(s)), at(lo + (hi-lo)*s), msg)

def trace(case, ctx):
    c = Curve(case)
    ctx.state(case)
    o = c.obj
    n = len(c.pts)
    for t in TS + [F(3, 16)]:
        ctx.vec(o.point_at_t(float(t)), c.at(t), 'point at {}'.format(t))
        d = c.d(t)
        if d != (0, 0):
            v = o.tangent_at(float(t))
            m = math.hypot(*[float(x) for x in d])
            ctx.vec(v.to_normalised(), (float(d[0])/m, float(d[1])/m), 'tangent at {}'.format(t))
    for t, name, k in ((0, 'tangent0', 'normal0'), (1, 'tangent1', 'normal1')):
        d = c.d(t)
        if d != (0, 0):
            m = math.hypot(*[float(x) for x in d])
            u = (float(d[0])/m, float(d[1])/m)
            if hasattr(o, name):
                ctx.vec(getattr(o, name), u, name)
            if hasattr(type(o), k):
                ctx.vec(getattr(o, k), (-u[1], u[0]), k)
    ctx.vec(o.start_point, c.pts[0], 'start point'); ctx.vec(o.end_point, c.pts[-1], 'end point')
    for t in TS:
        left, right = o.split_at_t(float(t))
        if left is not None:
            same(ctx, left, c.at, F(0), F(float(t)), 'left part at {}'.format(t))
        else:
            ctx.check(t <= 0, 'no left part at {}', t)
        if right is not None:
            same(ctx, right, c.at, F(float(t)), F(1), 'right part at {}'.format(t))
        else:
            ctx.check(t >= 1, 'no right part at {}', t)
    for t1, t2 in itertools.permutations([F(0), F(1, 4), F(5, 8), F(1)], 2):
        a, b = min(t1, t2), max(t1, t2)
        same(ctx, o.split_at_two_t(float(t1), float(t2)), c.at, a, b, 'part between {} and {}'.format(t1, t2))
    for t in (F(1, 4), F(5, 8)):
        ctx.vec(o.split_at_two_t(float(t), float(t)), c.at(t), 'empty part')
    same(ctx, o.reverse(), c.at, F(1), F(0), 'reverse')
    if n == 3:
        q = o.to_cubic()
        ctx.check(isinstance(q, CubicBezier2D), 'to_cubic')
        same(ctx, q, c.at, F(0), F(1), 'to_cubic')
    else:
        # signed area between the curve and its chord
        A = (X.pint(X.padd(X.pmul(c.px, X.pder(c.py)), X.pmul(c.py, X.pder(c.px)), -1), 0, 1)
             + c.pts[-1][0]*c.pts[0][1] - c.pts[-1][1]*c.pts[0][0])/2
        ctx.outcome(A)
        ctx.close(o.area, A, 'area')
        q = o.mid_point_quadratic_approximation()
        ctx.check(xy(q.start_point) == c.pts[0] and xy(q.end_point) == c.pts[-1], 'ends of the quadratic approximation')
        ctx.vec(q.point_at_t(.5), c.at(F(1, 2)), 'middle of the quadratic approximation')
        for flatness in (.05, .3, 1., 3.):
            if o.is_flat_enough(flatness):
                for i in range(17):
                    t = F(i, 16)
                    p = c.at(t); l = [float(c.pts[0][k]*(1-t) + c.pts[-1][k]*t) for k in (0, 1)]
                    ctx.check(math.hypot(p[0]-l[0], p[1]-l[1]) <= flatness*1.0001, 'flat at {} but away from its chord by {}', flatness, math.hypot(p[0]-l[0], p[1]-l[1]))
    if c.pts[0] != c.pts[-1]:
        line, lo, hi = o.fat_line()
        for i in range(33):
            d = line.distance_to_line(V(c.at(F(i, 32))))
            ctx.check(lo - 1e-9 <= d <= hi + 1e-9, 'the fat line [{}, {}] does not enclose the curve at {}: {}', lo, hi, i/32, d)
    b = o.bounding_box
    xs = [p[0] for p in c.pts]; ys = [p[1] for p in c.pts]
    ctx.check(b.x.inf <= min(xs) and b.x.sup >= max(xs) and b.y.inf <= min(ys) and b.y.sup >= max(ys), 'bounding box of the control points')
    ctx.eq([xy(p) for p in o.points], c.pts, 'a query modified the curve')

def lengths(case, ctx):
    pts, tol = case
    c = Curve(pts)
    ctx.state(pts)
    o = c.obj
    L = arc_length(c.px, c.py, 1.)
    tol_ = tol*max(1., L)
    def near(got, want, msg):
        ctx.check(isinstance(got, (int, float)) and abs(got - want) <= tol_, '{}: got {}, expected {}', msg, got, want)
    near(o.length, L, 'length')
    near(o.reverse().length, L, 'length of the reverse')
    near(o.length_at_t(0), 0, 'length at 0'); near(o.length_at_t(1), L, 'length at 1')
    for t in (.25, .5, .875):
        l = arc_length(c.px, c.py, t)
        near(o.length_at_t(t), l, 'length at {}'.format(t))
        near(o.length_at_t(t, cache=True), l, 'cached length at {}'.format(t))
        near(o.length_at_t(t, cache=True), l, 'cached length at {}, again'.format(t))
    l = o.interpolated_length()
    chord = math.hypot(c.pts[0][0]-c.pts[-1][0], c.pts[0][1]-c.pts[-1][1])
    ctx.check(chord - 1e-9 <= l <= L + 1e-6*max(1, L), 'interpolated length {} of a curve of length {} and chord {}', l, L, chord)
    ctx.check(abs(l - L) <= .01*max(1, L), 'interpolated length {} of a curve of length {}', l, L)
    if len(c.pts) == 3:
        a, b = o.split_at_t(.375)
        near(a.length + b.length, L, 'sum of the parts')
    total = o.length
    ctx.raises(ValueError, lambda: o.t_at_length(-1), 'negative length')
    ctx.raises(ValueError, lambda: o.t_at_length(total + 1), 'length out of the curve')
    ctx.eq(o.t_at_length(0), 0, 't at 0')
    if total:
        ctx.eq(o.t_at_length(total), 1, 't at the total length')
        for k in (.25, .6):
            t = o.t_at_length(k*total)
            ctx.check(0 <= t <= 1, 't out of range {}', t)
            near(arc_length(c.px, c.py, t), k*total, 'length at the t of length {}'.format(k*total))
    ctx.eq([xy(p) for p in o.points], c.pts, 'a query modified the curve')

LINES = [((0, 0), (1, 0)), ((0, 0), (0, 1)), ((1, 0), (1, 1)), ((0, 1), (2, -1)), ((0, .5), (-3, 0)), ((-1, -1), (1, 2)), ((.5, 2), (0, -1)), ((0, 0), (1, 1)), ((0, 5), (1, 0))]

def line(case, ctx):
    c = Curve(case)
    ctx.state(case)
    lines = list(LINES)
    if c.pts[0] != c.pts[-1]: # chord
        lines.append((c.pts[0], (c.pts[-1][0]-c.pts[0][0], c.pts[-1][1]-c.pts[0][1])))
    for p, u in lines:
        l = Line2D(V(p), V(u))
        q = c.obj.non_parametric_curve(l)
        for t in TS:
            ctx.vec(q.point_at_t(float(t)), (float(t), l.distance_to_line(V(c.at(t)))), 'distance to the line {} at {}'.format((p, u), t))
        f = line_function(c.px, c.py, ((F(p[0]), F(p[1])), (F(u[0]), F(u[1]))))
        n = X.count_roots(f, 0, 1)
        roots = c.obj.intersect_line(Line2D(V(p), V(u)))
        if n is None:
            # the curve is on the line
            ctx.check(not roots, 'roots {} of a curve lying on the line', roots)
            continue
        if roots is None:
            roots = []
        elif isinstance(roots, (int, float)):
            roots = [roots]
        roots = sorted(float(t) for t in roots)
        m = max(abs(float(x)) for x in f)
        for t in roots:
            s = max(1., abs(t))**(len(f)-1)
            ctx.check(abs(float(X.peval(f, F(t)))) <= 1e-7*m*s, 'line {}: {} is not an intersection', (p, u), t)
        inside = [t for t in roots if -1e-6 <= t <= 1 + 1e-6]
        distinct = [t for i, t in enumerate(inside) if i == 0 or t - inside[i-1] > 1e-5]
        ctx.outcome((len(c.pts), n))
        ctx.check(len(distinct) == n, 'line {}: intersections {}, expected {} of them', (p, u), roots, n)

DECIMAL_LINES = [((0, 0), (1, 0)), ((0, 0), (0, 1)), ((1, 0), (1, 1)), ((0, .5), (-3, 0))]
POLY = np.polynomial.polynomial

def decimal(case, ctx):
    """the curve is moved to a frame where its coordinates are rounded"""
    k, o, pts, queries = case
    c = Curve(pts)
    ctx.state(case)
    def m(p):
        return (k*p[0] + o, k*p[1] + o)
    obj = CLS[len(pts)](*[V(m(p)) for p in c.pts])
    if c.pts[0] != c.pts[-1]:
        lines = DECIMAL_LINES + [(c.pts[0], (c.pts[-1][0]-c.pts[0][0], c.pts[-1][1]-c.pts[0][1]))]
    else:
        lines = DECIMAL_LINES
    for p, u in lines:
        f = line_function(c.px, c.py, ((F(p[0]), F(p[1])), (F(u[0]), F(u[1]))))
        f = [float(x) for x in X.ptrim(f)]
        if len(f) < 2:
            continue
        big = max(abs(x) for x in f)
        roots = obj.intersect_line(Line2D(V(m(p)), V((k*u[0], k*u[1]))))
        roots = [float(t) for t in ([] if roots is None else [roots] if isinstance(roots, (int, float)) else roots)]
        for t in roots:
            if 0 <= t <= 1:
                ctx.check(abs(POLY.polyval(t, f)) <= 1e-6*big, 'line {}: {} is not an intersection', (p, u), t)
        d = POLY.polyder(f)
        for w in POLY.polyroots(f):
            if abs(w.imag) < 1e-9 and 1e-6 <= w.real <= 1 - 1e-6 and abs(POLY.polyval(w.real, d)) > 1e-3*big:
                ctx.outcome((len(f), round(w.real, 3)))
                ctx.check(any(abs(t - w.real) <= 1e-6 for t in roots), 'line {}: the intersection {} is lost, got {}', (p, u), w.real, roots)
    h = np.linspace(0, 1, 801)
    fx = POLY.polyval(h, [float(x) for x in c.px]); fy = POLY.polyval(h, [float(x) for x in c.py])
    for p in queries:
        best = float(np.hypot(fx - p[0], fy - p[1]).min())
        g = xy(obj.closest_point(V(m(p))))
        g = ((g[0] - o)/k, (g[1] - o)/k)
        got = math.hypot(g[0]-p[0], g[1]-p[1])
        ctx.check(got <= best + 1e-6, 'closest point to {} is {} at {}, but the curve has a point at {}', p, g, got, best)
        on = float(np.hypot(fx - g[0], fy - g[1]).min())
        ctx.check(on <= .02*max(1, max(abs(x) for q in c.pts for x in q)), 'closest point {} is not on the curve ({})', g, on)

def closest(case, ctx):
    pts, p = case
    c = Curve(pts)
    ctx.state(case)
    g = c.obj.closest_point(V(p))
    ctx.check(g is not None, 'no closest point')
    g = xy(g)
    k = np.linspace(0, 1, 801)
    fx = np.polynomial.polynomial.polyval(k, [float(x) for x in c.px]); fy = np.polynomial.polynomial.polyval(k, [float(x) for x in c.py])
    best = float(np.hypot(fx - p[0], fy - p[1]).min())
    got = math.hypot(g[0]-p[0], g[1]-p[1])
    ctx.check(got <= best + 1e-6, 'closest point to {} is {} at {}, but the curve has a point at {}', p, g, got, best)
    on = float(np.hypot(fx - g[0], fy - g[1]).min())
    ctx.check(on <= .02*max(1, max(abs(x) for q in c.pts for x in q)), 'closest point {} is not on the curve ({})', g, on)
    ctx.close(c.obj.distance_to_point(V(p)), got, 'distance to point', 1e-9)

def scaled(case, ctx):
    pts = case
    ctx.state(('scale', case))
    def measures(k):
        o = CLS[len(pts)](*[V((k*p[0], k*p[1])) for p in pts])
        ts = (0, .25, .5, .7, 1)
        yield 'points', 1, lambda: [o.point_at_t(t) for t in ts]
        yield 'tangents', 0, lambda: [o.tangent_at(t).to_normalised() for t in ts[1:-1]]
        yield 'parts', 1, lambda: [[h.points for h in o.split_at_t(t)] for t in ts[1:-1]]
        yield 'middle part', 1, lambda: o.split_at_two_t(.25, .7).points
        yield 'bounding box', 1, lambda: [o.bounding_box.x, o.bounding_box.y]
        for p, u in LINES[1:8:2]:
            yield 'line', 0, lambda: o.intersect_line(Line2D(V((k*p[0], k*p[1])), V(u)))
        yield 'fat line', 1, lambda: o.fat_line()[1:]
        if len(pts) == 3:
            yield 'length', 1, lambda: [o.length, o.length_at_t(.25), o.length_at_t(1)]
            yield 'cubic', 1, lambda: o.to_cubic().points
        else:
            yield 'area', 2, lambda: o.area
            yield 'quadratic', 1, lambda: o.mid_point_quadratic_approximation().points
            yield 'flat', 0, lambda: [o.is_flat_enough(k*f) for f in (.05, .3, 1., 3.)]
        for p in ((1, 2),) if len(pts) == 3 or pts[3][0] == 3 else ():
            yield 'closest point', 1, lambda: o.closest_point(V((k*p[0], k*p[1])))
            yield 'distance', 1, lambda: o.distance_to_point(V((k*p[0], k*p[1])))
    scale.covariant(ctx, measures, (scale.SCALES[0], scale.SCALES[3]), tol=1e-6)

def spaces(tier):
    from mc.core import Space
    quick = tier == 'quick'
    def r(n, lo):
        return [(x, y) for x in range(lo, lo+n) for y in range(lo, lo+n)]
    def quads(n):
        return [((0, 0), p, q) for p in r(n, -(n//2)) for q in r(n, -(n//2))]
    def moved(cs):
        for k, o in ((1, (0, 0)), (8, (-20, 3))):
            for c in cs:
                yield [(k*p[0]+o[0], k*p[1]+o[1]) for p in c]
    def cubics(n, lo=0):
        return [((0, 0), p, q, s) for p in r(n, lo) for q in r(n, lo) for s in r(n, lo)]
    curves = lambda: itertools.chain(moved(quads(7)), moved(cubics(3, -1)), cubics(4, 0) if quick else cubics(4, -1), [] if quick else cubics(5, -2))
    tc = .02
    def lens():
        for c in moved(quads(7 if quick else 9)):
            yield c, 1e-5
        for c in cubics(3, -1):
            yield c, tc
        for c in [] if quick else cubics(4, -1):
            yield c, tc
        # nearly closed
        for c in quads(5 if quick else 9):
            yield [c[0], (8*c[1][0], 8*c[1][1]), (c[2][0]/64, c[2][1]/64)], 1e-5
        for c in cubics(3, -1):
            yield [c[0], (8*c[1][0], 8*c[1][1]), (8*c[2][0], 8*c[2][1]), (c[3][0]/64, c[3][1]/64)], tc
        for c in cubics(2, 0):
            yield [(30*x+7, 20*y-3) for x, y in c], tc
    def lines_():
        yield from moved(quads(7))
        yield from cubics(3, -1)
        if not quick:
            yield from cubics(4, -1)
    def closest_():
        P = [(0, 0), (1, 2), (-3, .5)] if quick else [(0, 0), (1, 2), (-3, .5), (.5, -.5), (2, 2)]
        for c in quads(5):
            for p in P:
                yield c, p
        for c in [c for i, c in enumerate(cubics(3, -1))]:
            for p in P[1:2] if quick else P:
                yield c, p
    def decimals():
        for k, o in ((1.1, 0), (.1, .1), (.3, .1)) if quick else itertools.product((.1, .3, 1.1, 1/3), (0, .1, 5.3)):
            for i, c in enumerate(quads(5)):
                yield k, o, c, [(0, 0)] if quick else [(0, 0), (1, 2)]
            for i, c in enumerate(cubics(3, -1)):
                if not quick or i % 9 == 0:
                    yield k, o, c, [(0, 0)] if not quick else []
    return [
        Space('trace', curves, trace, 'every quadratic on a 7x7 grid from its centre and a scaled copy, every cubic on a 3x3 grid from its centre and a scaled copy, and on a {} grid; 7 parameters, 6 splits, 12 trims'.format('4x4' if quick else '4x4 and a 5x5')),
        Space('length', lens, lengths, 'every quadratic on a {0}x{0} grid and a scaled copy (1e-5), every cubic on a {1} grid ({2} relative or absolute), the same curves nearly closed'.format(7 if quick else 9, '3x3' if quick else '3x3 and 4x4', tc), timeout=120),
        Space('line', lines_, line, 'every quadratic on a 7x7 grid and a scaled copy, every cubic on a {} grid, {} lines and the chord'.format('3x3' if quick else '4x4', len(LINES))),
        Space('closest', closest_, closest, 'every quadratic on a 5x5 grid and cubic on a 3x3 grid, {} query points'.format('3 and 1' if quick else '5')),
        Space('decimal', decimals, decimal, 'every quadratic on a 5x5 grid and cubics on a 3x3 grid, moved to {} frames where their coordinates are rounded: 5 lines and the closest point'.format('3' if quick else '12')),
        Space('scales', lambda: itertools.chain(quads(5), (((0, 0), p, q, s) for p in r(3, -1) for q in ((2, 1), (0, 3), (-1, -1)) for s in ((3, 0), (1, 1), (0, 0)))), scaled, 'curves at 3 scales'),
    ]
