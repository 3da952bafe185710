"""C12: lines and segments against exact rational geometry."""
import itertools, math
from fractions import Fraction as F
from mc import exact as X
from IntervalArithmetic import Interval2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Triangle import triangle_orientation
from Patro.GeometryEngine.Vector import Vector2D

PROPERTY = 'C12'
ASSUMPTIONS = ['coordinates are small dyadic numbers so that the oracle is exact; float results are compared with a relative tolerance of 1e-7']

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def hyp(p, q=(0, 0)):
    return math.hypot(float(p[0]-q[0]), float(p[1]-q[1]))

def seg_pair(case, ctx):
    a, b, c, d = [tuple(p) for p in case]
    s1, s2 = Segment2D(V(a), V(b)), Segment2D(V(c), V(d))
    ctx.state(case)
    meet = X.segments_meet(a, b, c, d)
    ctx.outcome(meet)
    variants = [(s1, s2), (s2, s1), (s1.reverse(), s2), (s1, s2.reverse()), (s2.reverse(), s1.reverse())]
    for k, (u, v) in enumerate(variants):
        ctx.check(bool(u.intersect_with(v)) == meet, 'intersect_with (variant {}) is {} expected {}', k, not meet, meet)
    # common vertex
    common = {p for p in (a, b) if p in (c, d)}
    w = s1.share_vertex_with(s2)
    if common:
        ctx.check(w is not None and xy(w) in common, 'share_vertex_with {} expected one of {}', w, common)
    else:
        ctx.check(w is None, 'share_vertex_with {} expected None', w)
    ctx.close(s1.cross(s2), (b[0]-a[0])*(d[1]-c[1]) - (b[1]-a[1])*(d[0]-c[0]), 'cross')
    if a != b and c != d:
        u, v = (b[0]-a[0], b[1]-a[1]), (d[0]-c[0], d[1]-c[1])
        st = X.line_intersection(a, u, c, v)
        for k, (e, f) in enumerate(variants):
            p, inter = e.intersection(f)
            if st is None:
                ctx.check(p is None and not inter, 'intersection of parallel segments is {} {}', p, inter)
            else:
                want = (a[0] + st[0]*u[0], a[1] + st[0]*u[1])
                ctx.vec(p, want, 'intersection (variant {})'.format(k))
                ctx.check(bool(inter) == meet, 'intersection flag (variant {}) {} expected {}', k, inter, meet)
        l1, l2 = s1.to_line(), s2.to_line()
        lines(ctx, l1, l2, a, u, c, v)
        # the same lines described otherwise
        lines(ctx, Line2D(V((a[0]+2*u[0], a[1]+2*u[1])), V((-3*u[0], -3*u[1]))), l2, a, u, c, v, False)
        lines(ctx, l1, Line2D(V((c[0]-v[0], c[1]-v[1])), V((.5*v[0], .5*v[1]))), a, u, c, v, False)
    if (xy(s1.p0), xy(s1.p1), xy(s2.p0), xy(s2.p1)) != (a, b, c, d):
        ctx.check(False, 'a query modified the segments')

def lines(ctx, l1, l2, a, u, c, v, exact=True):
    par = u[0]*v[1] - u[1]*v[0] == 0
    orth = u[0]*v[0] + u[1]*v[1] == 0
    for m, n in ((l1, l2), (l2, l1)):
        ctx.check(bool(m.is_parallel(n)) == par, 'is_parallel expected {}', par)
        ctx.check(bool(m.is_orthogonal(n)) == orth, 'is_orthogonal expected {}', orth)
    p, q = l1.intersection(l2), l2.intersection(l1)
    st = X.line_intersection(a, u, c, v)
    if par:
        ctx.check(p is None and q is None, 'parallel lines intersect')
        ctx.check(tuple(l1.intersection_abscissae(l2)) == (None, None), 'parallel lines have abscissae')
    else:
        want = (a[0] + st[0]*u[0], a[1] + st[0]*u[1])
        ctx.vec(p, want, 'line intersection')
        ctx.vec(q, want, 'line intersection, swapped')
        s, t = l1.intersection_abscissae(l2)
        if exact:
            ctx.close(s, st[0], 'abscissa'); ctx.close(t, st[1], 'abscissa')
        ctx.vec(l1.interpolate(s), want, 'abscissa on first line')
        ctx.vec(l2.interpolate(t), want, 'abscissa on second line')

def box(case, ctx):
    """points of a line on two opposite sides of a box, the ones it is more likely to cross"""
    p, v, (x0, x1), (y0, y1) = case
    ctx.state(case)
    line = Line2D(V(p), V(v))
    a, b = line.get_x_y_from_bounding_box(Interval2D((x0, x1), (y0, y1)))
    steep = abs(v[1])*(x1 - x0) > abs(v[0])*(y1 - y0)
    ctx.outcome(steep)
    if abs(v[1])*(x1 - x0) == abs(v[0])*(y1 - y0):
        steep = abs(float(a.y) - y0) < 1e-9 and abs(float(b.y) - y1) < 1e-9 # either pair
    for got, x, y in ((a, x0, y0), (b, x1, y1)):
        if steep:
            want = (F(p[0]) + F(y - p[1])*F(v[0])/F(v[1]), y)
        else:
            want = (x, F(p[1]) + F(x - p[0])*F(v[1])/F(v[0]))
        ctx.vec(got, want, 'line and box')

def seg_point(case, ctx):
    a, b, p = [tuple(q) for q in case]
    ctx.state(case)
    s = Segment2D(V(a), V(b))
    q = V(p)
    c = X.cross(a, b, p)
    ctx.check(X.sgn(s.side_of(q)) == X.sgn(c), 'side_of {} expected sign {}', s.side_of(q), X.sgn(c))
    ctx.eq(bool(s.left_of(q)), c > 0, 'left_of')
    ctx.eq(bool(s.right_of(q)), c < 0, 'right_of')
    ctx.eq(bool(s.is_collinear(q)), c == 0, 'is_collinear')
    d = math.sqrt(float(X.dist2_point_segment(a, b, p)))
    on = X.on_segment(a, b, p)
    ctx.outcome((X.sgn(c), on))
    for k, t in enumerate((s, s.reverse())):
        ctx.close(t.distance_to_point(q), d, 'distance to point (variant %d)' % k)
        ctx.eq(bool(t.contain_point(q)), on, 'contain_point (variant %d)' % k)
    o = triangle_orientation(V(a), V(b), q)
    if c:
        ctx.eq(o, X.sgn(c), 'triangle_orientation')
    else:
        ctx.eq(o == 0, on and not (a == b and p != a), 'triangle_orientation of collinear points')
    if xy(q) != p:
        ctx.check(False, 'query modified the point')

def segment(case, ctx):
    a, b = [tuple(q) for q in case]
    ctx.state(case)
    s = Segment2D(V(a), V(b))
    u = (b[0]-a[0], b[1]-a[1])
    ctx.vec(s.vector, u, 'vector'); ctx.vec(s.direction, u, 'direction')
    ctx.close(s.length, hyp(u), 'length')
    ctx.vec(s.center, ((a[0]+b[0])/2, (a[1]+b[1])/2), 'center')
    ctx.close(s.cross_product, a[0]*b[1] - a[1]*b[0], 'cross product')
    for t in (0, 1, .5, .25, -1, 2):
        w = (a[0] + t*u[0], a[1] + t*u[1])
        ctx.vec(s.interpolate(t), w, 'interpolate'); ctx.vec(s.point_at_t(t), w, 'point_at_t')
    r = s.reverse()
    ctx.check((xy(r.p0), xy(r.p1)) == (b, a) and (xy(s.p0), xy(s.p1)) == (a, b), 'reverse')
    ctx.eq((xy(s.start_point), xy(s.end_point)), (a, b), 'ends')
    ctx.eq([xy(p) for p in s.points], [a, b], 'points')
    ctx.eq([xy(p) for p in s.reversed_points], [b, a], 'reversed points')
    ctx.check(s == Segment2D(V(a), V(b)), 'equality')
    ctx.eq(s == r, a == b, 'equality with reverse')
    ctx.eq(bool(s.is_point_close(r)), a == b, 'is_point_close')
    ctx.check(s.is_point_close(Segment2D(V(a), V(b))), 'is_point_close itself')
    ctx.eq((len(s), s.is_closed, s.is_infinite, s.is_reversible), (2, False, False, True), 'kind')
    bb = s.bounding_box
    ctx.eq((bb.x.inf, bb.x.sup, bb.y.inf, bb.y.sup), (min(a[0], b[0]), max(a[0], b[0]), min(a[1], b[1]), max(a[1], b[1])), 'bounding box')
    ctx.eq(s.point_array.tolist(), [[a[0], b[0]], [a[1], b[1]]], 'point array')
    l = s.to_line()
    ctx.vec(l.p, a, 'to_line'); ctx.vec(l.v, u, 'to_line')

def line_point(case, ctx):
    a, u, p, k = case
    a, u, p = tuple(a), tuple(u), tuple(p)
    ctx.state(case)
    l = Line2D(V(a), V((u[0]*k, u[1]*k)))
    m = hyp(u)
    nx, ny = u[0]/m*X.sgn(k), u[1]/m*X.sgn(k)
    w = (p[0]-a[0], p[1]-a[1])
    d = nx*w[1] - ny*w[0]
    al = nx*w[0] + ny*w[1]
    q = V(p)
    foot = (a[0] + nx*al, a[1] + ny*al)
    ctx.close(l.distance_to_line(q), d, 'signed distance to line')
    dd, ss = l.distance_and_abscissa_to_line(q)
    ctx.close(dd, d, 'distance'); ctx.close(ss, al, 'curvilinear abscissa')
    ctx.vec(l.projected_point(q), foot, 'projected point')
    ctx.vec(l.interpolate(l.projected_abscissa(q)), foot, 'projected abscissa')
    for r in (0, 1, 2.5):
        D = math.hypot(d, r)
        if r:
            ctx.vec(l.triangle_projected_point(q, D), (foot[0] + r*nx, foot[1] + r*ny), 'triangle projected point', 1e-6)
            ctx.vec(l.triangle_projected_point(q, D, reverse=True), (foot[0] - r*nx, foot[1] - r*ny), 'triangle projected point, reversed', 1e-6)
        for D in (r, -r):
            ctx.vec(l.point_at_distance(D, q), (p[0] + D*nx, p[1] + D*ny), 'point at distance from a point')
            ctx.vec(l.point_at_distance(D), (a[0] + D*nx, a[1] + D*ny), 'point at distance')
            sl = l.shifted_parallel_line(D)
            ctx.check(bool(sl.is_parallel(l)), 'shifted line is not parallel')
            ctx.close(l.distance_to_line(sl.p), D, 'shift')
            ctx.close(sl.distance_to_line(q), d - D, 'distance to the shifted line')
    pl = l.parallel_line_at(q)
    ctx.vec(pl.p, p, 'parallel line'); ctx.check(bool(pl.is_parallel(l)), 'parallel line')
    ol = l.orthogonal_line_at(q)
    ctx.vec(ol.p, p, 'orthogonal line'); ctx.check(bool(ol.is_orthogonal(l)), 'orthogonal line')
    ctx.vec(ol.intersection(l), foot, 'foot of the orthogonal line')
    for s in (0, 1, -2, .5):
        P = (a[0] + s*k*u[0], a[1] + s*k*u[1])
        ctx.vec(l.interpolate(s), P, 'interpolate'); ctx.vec(l.point_at_s(s), P, 'point_at_s'); ctx.vec(l.point_at_t(s), P, 'point_at_t')
        ol = l.orthogonal_line_at_abscissa(s)
        ctx.vec(ol.p, P, 'orthogonal line at abscissa'); ctx.check(bool(ol.is_orthogonal(l)), 'orthogonal line at abscissa')
        ctx.close(l.compute_distance_between_abscissae(s, 1.5), abs(1.5 - s)*abs(k)*m, 'distance between abscissae')
    ctx.check([round(x, 9) for x in l.compute_distance([0, 2, -1])] == [round(2*abs(k)*m, 9), round(3*abs(k)*m, 9)], 'distances between abscissae')
    if u[0]:
        ctx.close(l.get_y_from_x(p[0]), a[1] + u[1]/u[0]*(p[0]-a[0]), 'y from x')
    if u[1]:
        ctx.close(l.get_x_from_y(p[1]), a[0] + u[0]/u[1]*(p[1]-a[1]), 'x from y')
    ctx.vec(l.vn, (nx, ny), 'unit vector')
    ctx.check(l.is_infinite and not l.is_closed, 'kind')
    ctx.vec(l.p, a, 'query modified the line'); ctx.vec(l.v, (u[0]*k, u[1]*k), 'query modified the line')
    ctx.vec(q, p, 'query modified the point')
    c = l.clone()
    ctx.check(xy(c.p) == xy(l.p) and xy(c.v) == xy(l.v), 'clone')

def spaces(tier):
    from mc.core import Space
    n = 4 if tier == 'quick' else 5
    g = [(x, y) for x in range(n) for y in range(n)]
    g3 = [(x, y) for x in range(-1, 2) for y in range(-1, 2)]
    # end points: all of a 3x3 grid, plus a 4x4 one up to translation for the first point of the pair
    def pairs():
        for a, b, c, d in itertools.product(g3, repeat=4):
            yield (a, b, c, d)
        for b in itertools.product(range(-n+1, n), range(n)):
            for c in itertools.product(range(-1, n), repeat=2):
                for d in itertools.product(range(-1, n), repeat=2):
                    yield ((1, 1), (1 + b[0], 1 + b[1]), c, d)
        for o, k in (((1000, -500), 1), ((0, 0), .125), ((-7, 3), 64), ((0, .5), 2.**-9), ((2., -3.), 2.**13)):
            for c, d in itertools.product(g3, repeat=2):
                for b in ((1, 0), (1, 1), (-1, 0), (0, -1), (-1, 1)):
                    f = lambda p: (o[0] + k*p[0], o[1] + k*p[1])
                    yield (f((0, 0)), f(b), f(c), f(d))
    half = [(x/2, y/2) for x in range(-2, 9) for y in range(-2, 9)]
    dirs = [(1, 0), (0, 1), (1, 1), (-1, 2), (3, -4), (-2, 0), (0, -3), (-1, -1), (2, 1)]
    pts = [(x, y) for x in (-2, 0, .5, 3) for y in (-1, 0, 2, 4)]
    # the same figures elsewhere and at other scales
    moved = [(o, k) for o, k in (((1000, -500), 1), ((-7, 3), 64), ((0, .5), 2.**-9), ((2., -3.), 2.**13))]
    def map_(o, k):
        return lambda p: (o[0] + k*p[0], o[1] + k*p[1])
    def points2():
        for o, k in moved:
            f = map_(o, k)
            for a, b in itertools.product(g3, repeat=2):
                for q in itertools.product((-1, -.5, 0, .25, 1), repeat=2):
                    yield (f(a), f(b), f(q))
    def line_points():
        for a in ((0, 0), (1, -2), (-3, .5)):
            for u in dirs:
                for q in pts:
                    for k in (1, -1, .25, 10):
                        yield (a, u, q, k)
        for o, m in moved:
            f = map_(o, m)
            for u in dirs:
                for q in pts[::3]:
                    for k in (1, -1, 2.**-9, m, 64):
                        yield (f((1, -2)), u, f(q), k)
    def boxes():
        us = dirs + [(4, -1), (1, 8), (-5, 7)]
        for a in ((0, 0), (1, -2), (-3, .5)):
            for u in us:
                for bx in ((0, 3), (-2, -1), (-1, 7), (-5, -3), (-1, 0)):
                    for by in ((0, 2), (-8, 8), (1, 1.5), (-5, -3.5), (-1, 0)):
                        yield (a, u, bx, by)
        for o, m in moved:
            for u in us:
                for bx in ((0, 3), (-5, -3)):
                    for by in ((-1, 2), (-8, -5)):
                        yield (map_(o, m)((1, -2)), u, tuple(o[0] + m*x for x in bx), tuple(o[1] + m*y for y in by))
    return [
        Space('segment', [(a, b) for a in g for b in g], segment, 'segments on a {0}x{0} grid'.format(n)),
        Space('segment_pairs', pairs, seg_pair, 'all segment pairs on a 3x3 grid, all pairs with one fixed end on a larger grid, scaled and translated copies'),
        Space('segment_point', lambda: ((a, b, p) for a in g for b in g for p in half), seg_point, 'segments on a {0}x{0} grid x half-grid points'.format(n)),
        Space('segment_point_moved', points2, seg_point, 'segments and points of a 3x3 grid at 4 places and scales'),
        Space('line_point', line_points, line_point, 'lines by point, direction and direction length, query points, 5 places and scales'),
        Space('line_box', boxes, box, 'lines and bounding boxes, 5 places and scales'),
    ]
