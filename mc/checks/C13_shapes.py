"""C13: triangles, rectangles and polylines against exact plane geometry."""
import itertools, math
from mc import exact as X
from Patro.GeometryEngine.Polygon import Polygon2D, RegularPolygon
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Triangle import Triangle2D, triangle_orientation, same_side
from Patro.GeometryEngine.Vector import Vector2D
from mc import scale

PROPERTY = 'C13'
ASSUMPTIONS = ['coordinates are small integers (translated and scaled by dyadic numbers), float results are compared with a relative tolerance of 1e-7',
               'obtuse and acute are not compared on exactly right triangles, where rounding decides']

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def hyp(p, q):
    return math.hypot(float(p[0]-q[0]), float(p[1]-q[1]))

def d2(p, q):
    return (p[0]-q[0])**2 + (p[1]-q[1])**2

def bbox(ctx, obj, pts):
    b = obj.bounding_box
    ctx.eq((b.x.inf, b.x.sup, b.y.inf, b.y.sup), (min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts)), 'bounding box')

def primitive(ctx, obj, pts, closed):
    """what every primitive made of points promises"""
    ctx.eq([xy(p) for p in obj.points], pts, 'points')
    ctx.eq([xy(p) for p in obj.reversed_points], pts[::-1], 'reversed points')
    ctx.eq([xy(p) for p in obj.iter_from_second_point()], pts[1:], 'points from the second one')
    ctx.eq(xy(obj.start_point), pts[0], 'start point'); ctx.eq(xy(obj.end_point), pts[-1], 'end point')
    ctx.eq((obj.number_of_points, len(obj), bool(obj.is_closed), bool(obj.is_infinite), obj.dimension), (len(pts), len(pts), closed, False, 2), 'kind')
    r = obj.reverse()
    ctx.eq([xy(p) for p in r.points], pts[::-1], 'reverse'); ctx.eq([xy(p) for p in obj.points], pts, 'reverse modified its source')
    ctx.eq(bool(obj == r), pts == pts[::-1], 'equality with the reverse')
    c = obj.clone()
    ctx.check(bool(obj == c) and bool(obj.is_point_close(c)), 'clone is not equal')
    ctx.eq(obj.point_array.tolist(), [[p[0] for p in pts], [p[1] for p in pts]], 'point array')
    if closed:
        ctx.eq([xy(p) for p in obj.closed_points], pts + pts[:1], 'closed points')
        ctx.eq([(xy(p), xy(q)) for p, q in obj.closed_pairwise_points], list(zip(pts, pts[1:] + pts[:1])), 'closed pairs')
        ctx.eq(obj.closed_point_array.tolist(), [[p[0] for p in pts + pts[:1]], [p[1] for p in pts + pts[:1]]], 'closed point array')
    bbox(ctx, obj, pts)
    path = obj.to_path()
    ctx.eq((xy(path.p0), bool(path.is_closed)), (pts[0], closed), 'path')
    stops = [xy(p.stop_point) for p in path]
    ctx.eq(stops, pts[1:] + (pts[:1] if closed else []), 'path parts')

def triangle(case, ctx):
    pts = [tuple(p) for p in case]
    a, b, c = pts
    cr = X.cross(a, b, c)
    if cr == 0:
        ctx.state('flat')
        if a != b and a != c:
            ctx.raises(ValueError, lambda: Triangle2D(V(a), V(b), V(c)), 'flat triangle')
        return
    ctx.state(case)
    t = Triangle2D(V(a), V(b), V(c))
    primitive(ctx, t, pts, True)
    ctx.close(t.area, abs(cr)/2, 'area')
    ls = [hyp(a, b), hyp(b, c), hyp(c, a)]
    ctx.close(t.perimeter, sum(ls), 'perimeter')
    q = [d2(a, b), d2(b, c), d2(c, a)]
    k = len(set(q))
    ctx.eq((bool(t.is_equilateral), bool(t.is_isosceles), bool(t.is_scalene)), (k == 1, k == 2, k == 3), 'kind of triangle')
    m = max(q); rest = sum(q) - m
    ctx.outcome((k, X.sgn(m - rest), X.sgn(cr)))
    ctx.eq((bool(t.is_obtuse), bool(t.is_acute), bool(t.is_oblique)), (m > rest, m < rest, m != rest), 'obtuse, acute and oblique')
    ctx.eq([(xy(e.p0), xy(e.p1)) for e in t.edges], [(a, b), (b, c), (c, a)], 'edges')
    for v, line, (p, r, s) in ((t.bisector_vector0, t.bisector_line0, (a, b, c)), (t.bisector_vector1, t.bisector_line1, (b, a, c)), (t.bisector_vector2, t.bisector_line2, (c, b, a))):
        u1 = ((r[0]-p[0])/hyp(r, p), (r[1]-p[1])/hyp(r, p))
        u2 = ((s[0]-p[0])/hyp(s, p), (s[1]-p[1])/hyp(s, p))
        w = (u1[0]+u2[0], u1[1]+u2[1])
        n = math.hypot(*w)
        ctx.vec(v.to_normalised(), (w[0]/n, w[1]/n), 'bisector')
        ctx.vec(line.p, p, 'bisector line'); ctx.vec(line.v.to_normalised(), (w[0]/n, w[1]/n), 'bisector line')
    ctx.eq(triangle_orientation(*[V(p) for p in pts]), X.sgn(cr), 'orientation')
    # first query of a triangle: the answer does not depend on the previous ones
    for name in ('area', 'perimeter', 'is_equilateral', 'is_scalene', 'is_isosceles', 'is_obtuse', 'is_acute', 'is_oblique'):
        if hasattr(Triangle2D, name):
            f = Triangle2D(V(a), V(b), V(c))
            ctx.eq(getattr(f, name), getattr(t, name), name + ' of a new triangle')
    pg = t.to_polygon()
    ctx.check(isinstance(pg, Polygon2D) and [xy(p) for p in pg.points] == pts, 'to_polygon')
    ctx.close(pg.area, abs(cr)/2, 'area of the polygon')
    ctx.eq([xy(p) for p in pg.to_triangle().points], pts, 'to_triangle')
    # containment on the half grid
    lo = min(min(p) for p in pts) - 1; hi = max(max(p) for p in pts) + 1
    step = (hi - lo)/8
    for i in range(9):
        for j in range(9):
            p = (lo + i*step, lo + j*step)
            w = X.inside(pts, p)
            ctx.eq(bool(t.is_point_inside(V(p))), w >= 0, 'is_point_inside {}'.format(p))
    for p in pts + [((a[0]+b[0])/2, (a[1]+b[1])/2)]:
        ctx.check(t.is_point_inside(V(p)), 'vertex {} is not inside', p)
    # points changed through the setters
    t.p0 = V((a[0] + 2*(a[0]-b[0]), a[1] + 2*(a[1]-b[1])))
    a2 = xy(t.p0)
    ctx.close(t.perimeter, hyp(a2, b) + hyp(b, c) + hyp(c, a2), 'perimeter after a change')
    ctx.close(t.area, abs(X.cross(a2, b, c))/2, 'area after a change')

def refused(case, ctx):
    n, = case
    ctx.state(case)
    pts = [V((i, i*i)) for i in range(n)]
    for cls, least in ((Polyline2D, 2), (Polygon2D, 3)):
        if n < least:
            ctx.raises(ValueError, lambda: cls(*pts), '{} of {} points'.format(cls.__name__, n))
        else:
            ctx.eq([xy(p) for p in cls(*pts).points], [xy(p) for p in pts], 'points')
    if n < 3:
        ctx.raises(ValueError, lambda: RegularPolygon(V((0, 0)), 1, n), 'regular polygon of {} edges'.format(n))
        return
    for poly in (Polygon2D(*pts), RegularPolygon(V((0, 0)), 1, n)):
        ctx.eq((poly.number_of_points, bool(poly.is_triangle)), (n, n == 3), 'triangle')
        if n == 3:
            t = poly.to_triangle()
            ctx.check(isinstance(t, Triangle2D) and [xy(p) for p in t.points] == [xy(p) for p in poly.points], 'to_triangle: {}', t)
        else:
            ctx.raises(ValueError, poly.to_triangle, 'to_triangle of {} points'.format(n))
    ctx.outcome(n)

def turned(case, ctx):
    """the kind of a triangle does not depend on its place; a case: triangle or None for an equilateral one, angle, scale, shift"""
    base, angle, k, shift = case
    if base is None:
        base = [(math.cos(math.radians(120*i)), math.sin(math.radians(120*i))) for i in range(3)]
        kind, m = 1, -1
    else:
        cr = X.cross(*base)
        if cr == 0:
            return
        q = [d2(p, r) for p, r in zip(base, base[1:] + base[:1])]
        kind, m = len(set(q)), X.sgn(2*max(q) - sum(q))
    ctx.state(case)
    c, s = math.cos(math.radians(angle)), math.sin(math.radians(angle))
    pts = [(k*(c*x - s*y) + shift[0], k*(s*x + c*y) + shift[1]) for x, y in base]
    for order in itertools.permutations(pts):
        t = Triangle2D(*[V(p) for p in order])
        ctx.step()
        ctx.eq((bool(t.is_equilateral), bool(t.is_isosceles), bool(t.is_scalene)), (kind == 1, kind == 2, kind == 3), 'kind of the triangle {}'.format(order))
        ctx.eq((bool(t.is_obtuse), bool(t.is_acute), bool(t.is_oblique)), (m > 0, m < 0, m != 0), 'obtuse, acute and oblique: {}'.format(order))
    ctx.outcome((kind, m))

def turned_cases(tier):
    q = tier == 'quick'
    grid = [(x, y) for x in (range(3) if q else range(4)) for y in range(4)]
    for angle in range(0, 360, 15 if q else 5):
        for k in (1, .1, 7.3, 250):
            for shift in ((0, 0), (.7, -3.1)):
                yield [None, angle, k, shift]
    for base in itertools.combinations(grid, 3):
        for angle in (0, 17, 30, 45, 90, 100, 211) if q else range(0, 360, 12):
            for k, shift in ((1, (0, 0)), (.1, (.7, -3.1)), (33.3, (-5.5, 8.25))):
                yield [list(base), angle, k, shift]

def side(case, ctx):
    a, b, p, q = [tuple(x) for x in case]
    ctx.state(case)
    ctx.eq(bool(same_side(V(p), V(q), V(a), V(b))), X.cross(a, b, p)*X.cross(a, b, q) >= 0, 'same_side')

def rectangle(case, ctx):
    a, b = [tuple(p) for p in case]
    ctx.state(case)
    w, h = abs(b[0]-a[0]), abs(b[1]-a[1])
    for k, r in enumerate((Rectangle2D(V(a), V(b)), Rectangle2D.from_point_and_offset(V(a), V((b[0]-a[0], b[1]-a[1]))),
              Rectangle2D.from_point_and_radius(V(((a[0]+b[0])/2, (a[1]+b[1])/2)), V(((b[0]-a[0])/2, (b[1]-a[1])/2))))):
        ctx.eq((xy(r.p0), xy(r.p1)), (a, b), 'corners (constructor %d)' % k)
        ctx.close(r.area, w*h, 'area'); ctx.close(r.perimeter, 2*(w+h), 'perimeter')
        ctx.vec(r.diagonal, (b[0]-a[0], b[1]-a[1]), 'diagonal')
        ctx.eq((xy(r.p01), xy(r.p10)), ((a[0], b[1]), (b[0], a[1])), 'other corners')
        out = [a, (a[0], b[1]), b, (b[0], a[1])]
        ctx.eq([(xy(e.p0), xy(e.p1)) for e in r.edges], list(zip(out, out[1:] + out[:1])), 'edges')
        ctx.check(r.is_closed, 'is_closed')
        bbox(ctx, r, out)
        pg = r.to_polygon()
        ctx.eq([xy(p) for p in pg.points], out, 'to_polygon')
        if w*h:
            ctx.close(pg.area, w*h, 'area of the polygon'); ctx.check(pg.is_convex, 'convex')
            path = r.to_path()
            ctx.eq((xy(path.p0), bool(path.is_closed), [xy(p.stop_point) for p in path]), (a, True, out[1:] + out[:1]), 'path')
        rv = r.reverse()
        ctx.eq((xy(rv.p0), xy(rv.p1)), (b, a), 'reverse')
        ctx.check(r.clone() == r, 'clone')
        for x in (-1.5, -1, -.5, 0, .5, 1, 1.5, 2, 3):
            for y in (-1.5, -1, 0, .5, 1, 2, 2.5):
                ctx.eq(bool(r.is_point_inside(V((x, y)))), min(a[0], b[0]) <= x <= max(a[0], b[0]) and min(a[1], b[1]) <= y <= max(a[1], b[1]), 'is_point_inside {}'.format((x, y)))
        ctx.check(r.is_point_inside(V(((a[0]+b[0])/2, (a[1]+b[1])/2))), 'centre is not inside')

def polyline(case, ctx):
    pts = [tuple(p) for p in case]
    ctx.state(case)
    l = Polyline2D(*[V(p) for p in pts])
    primitive(ctx, l, pts, False)
    ctx.close(l.length, sum(hyp(p, q) for p, q in zip(pts, pts[1:])), 'length')
    ctx.close(l.length, sum(hyp(p, q) for p, q in zip(pts, pts[1:])), 'length, asked again')
    for _ in range(2):
        ctx.eq([(xy(e.p0), xy(e.p1)) for e in l.edges], list(zip(pts, pts[1:])), 'edges')
    x0, y0 = pts[0]
    for p in ((x0, y0), (x0+.5, y0), (x0-1, y0+1.5), (x0+2.5, y0-1), (x0, y0+4), pts[-1]):
        d = min(float(X.dist2_point_segment(u, v, p)) for u, v in zip(pts, pts[1:]))
        ctx.close(l.distance_to_point(V(p)), math.sqrt(d), 'distance to point {}'.format(p))
    ctx.close(l.reverse().length, l.length, 'length of the reverse')
    n = len(pts)
    for size in range(1, n+1):
        ctx.eq([[xy(p) for p in t] for t in l.iter_on_nuplets(size)], [pts[i:i+size] for i in range(n-size+1)], 'nuplets')
    ctx.raises(ValueError, lambda: list(l.iter_on_nuplets(n+1)), 'too large nuplets')
    ctx.eq(xy(l[0]), pts[0], 'item'); ctx.eq([xy(p) for p in l[1:]], pts[1:], 'slice')

def scaled(case, ctx):
    kind, pts = case
    if kind == 'triangle' and not X.cross(*pts):
        return
    ctx.state(('scale', case))
    ps = [(x + .25, y - .125) for x in (-2, 0, 1, 3) for y in (-3, 0, 2)]
    def measures(k):
        P = lambda p: V((k*p[0], k*p[1]))
        if kind == 'triangle':
            new = lambda: Triangle2D(*[P(p) for p in pts])
            names = (('area', 2), ('perimeter', 1), ('is_equilateral', 0), ('is_scalene', 0), ('is_isosceles', 0), ('is_obtuse', 0), ('is_acute', 0))
        elif kind == 'rectangle':
            new = lambda: Rectangle2D(*[P(p) for p in pts])
            names = (('area', 2), ('perimeter', 1), ('center', 1), ('diagonal', 1), ('p01', 1), ('p10', 1))
        else:
            new = lambda: Polyline2D(*[P(p) for p in pts])
            names = (('length', 1),)
        for name, dim in names:
            if hasattr(type(new()), name):
                yield name, dim, lambda: getattr(new(), name)
        o = new()
        for name in ('is_point_inside', 'distance_to_point'):
            if hasattr(o, name):
                yield name, 1 if name[0] == 'd' else 0, lambda: [getattr(o, name)(P(p)) for p in ps]
        yield 'bounding box', 1, lambda: [o.bounding_box.x, o.bounding_box.y]
    scale.covariant(ctx, measures)

def spaces(tier):
    from mc.core import Space
    n = 4 if tier == 'quick' else 5
    g = [(x, y) for x in range(n) for y in range(n)]
    g3 = [(x, y) for x in range(3) for y in range(3)]
    def triangles():
        yield from itertools.product(g, repeat=3)
        for o, k in ((1024, .125), (-300, 1), (0, 4096)):
            for t in itertools.product(g3, repeat=3):
                yield [(o + k*x, k*y - o) for x, y in t]
    def rects():
        g5 = [(x, y) for x in range(-2, 3) for y in range(-2, 3)]
        yield from itertools.product(g5, repeat=2)
    def polys():
        for m in range(2, 5 if tier == 'quick' else 6):
            yield from itertools.product(g3, repeat=m)
        yield from itertools.product([(x, y) for x in range(6) for y in range(6)], repeat=2)
        for q in itertools.product([(0, 0), (5, 1), (2, 7), (-3, 4)], repeat=5):
            yield q
    return [
        Space('triangles', triangles, triangle, 'every ordered triple of a {0}x{0} grid, and of three translated and scaled 3x3 grids; 81 query points each'.format(n)),
        Space('sides', lambda: itertools.product(g3, repeat=4), side, 'same_side on every quadruple of a 3x3 grid'),
        Space('rectangles', rects, rectangle, 'every ordered pair of opposite corners of a 5x5 grid, three constructors, 63 query points'),
        Space('polylines', polys, polyline, 'every polyline of 2 to {} vertices on a 3x3 grid, 2 on a 6x6 grid, 5 over four skewed points'.format(4 if tier == 'quick' else 5)),
        Space('refused', [[n] for n in range(7)], refused, 'figures without enough points'),
        Space('turned', lambda: turned_cases(tier), turned, 'the kind of every triangle of a grid, and of equilateral ones, turned, scaled and shifted, every vertex order'),
        Space('scales', lambda: [(kind, pts) for kind, n in (('triangle', 3), ('rectangle', 2), ('polyline', 2), ('polyline', 3), ('polyline', 4)) for pts in itertools.product([(0, 0), (3, 1), (2, 5), (-1, 4), (1, 2)], repeat=n) if n < 4 or pts[0] == (0, 0)], scaled, 'figures at 5 scales'),
    ]
