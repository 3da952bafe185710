"""C14: polygon measures and predicates against exact rational geometry."""
import itertools, math
from fractions import Fraction as F
from mc import exact as X
from Patro.GeometryEngine.Polygon import Polygon2D, RegularPolygon
from Patro.GeometryEngine.Vector import Vector2D
from mc import scale

PROPERTY = 'C14'
ASSUMPTIONS = ['vertices have small dyadic coordinates so that the oracle is exact; float measures are compared with a relative tolerance of 1e-7',
               'containment is compared on points off the boundary, for simple polygons only']

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def convex(pts):
    n = len(pts)
    s = {X.sgn(X.cross(pts[i-1], pts[i], pts[(i+1) % n])) for i in range(n)}
    return not (1 in s and -1 in s)

def axes(pts):
    n = len(pts)
    xx = sum(p[0]*p[0] for p in pts)/n; yy = sum(p[1]*p[1] for p in pts)/n; q = sum(p[0]*p[1] for p in pts)/n
    r = math.sqrt((yy-xx)**2 + 4*q*q)
    return xx, yy, q, 4*math.sqrt(max((xx+yy+r)/2, 0)), 4*math.sqrt(max((xx+yy-r)/2, 0)), r

def measures(ctx, pts, queries, light=False):
    n = len(pts)
    p = Polygon2D(*[V(q) for q in pts])
    simple = X.is_simple(pts)
    ctx.eq(bool(p.is_simple), simple, 'is_simple of {}'.format(pts))
    ctx.eq((p.number_of_points, p.number_of_edges, bool(p.is_triangle), bool(p.is_closed)), (n, n, n == 3, True), 'kind')
    ctx.eq([(xy(e.p0), xy(e.p1)) for e in p.edges], list(zip(pts, pts[1:] + pts[:1])), 'edges')
    ctx.close(p.perimeter, sum(math.hypot(a[0]-b[0], a[1]-b[1]) for a, b in zip(pts, pts[1:] + pts[:1])), 'perimeter')
    ctx.vec(p.point_barycenter, (sum(q[0] for q in pts)/n, sum(q[1] for q in pts)/n), 'barycenter of the vertices')
    if not simple:
        ctx.check(not p.is_convex and p.is_concave, 'not simple but convex')
        ctx.check(p.area is None and p.is_clockwise is None and p.barycenter is None, 'measures of a polygon which is not simple')
        return False
    a2 = X.area2(pts)
    # whatever the order of the questions
    p2 = Polygon2D(*[V(q) for q in pts])
    ctx.eq(bool(p2.is_clockwise), a2 < 0, 'is_clockwise asked first')
    p3 = Polygon2D(*[V(q) for q in pts])
    ctx.vec(p3.barycenter, X.centroid(pts), 'barycenter asked first')
    for obj in (p, p3):
        cv = convex(pts)
        ctx.eq(bool(obj.is_convex), cv, 'is_convex of {}'.format(pts)); ctx.eq(bool(obj.is_concave), not cv, 'is_concave')
        ctx.close(obj.area, abs(a2)/2, 'area')
        ctx.eq(bool(obj.is_clockwise), a2 < 0, 'is_clockwise'); ctx.eq(bool(obj.is_counterclockwise), a2 > 0, 'is_counterclockwise')
        ctx.vec(obj.barycenter, X.centroid(pts), 'barycenter')
    xx, yy, q, M, m, r = axes(pts)
    ctx.close(p.major_axis, M, 'major axis'); ctx.close(p.minor_axis, m, 'minor axis', 1e-6)
    if m > 1e-3:
        ctx.close(p.axis_ratio, M/m, 'axis ratio', 1e-6)
    if r > 1e-9*(xx+yy):
        # the direction is an eigenvector of the greatest eigenvalue
        t = math.radians(p.major_axis_angle)
        c, s = math.cos(t), math.sin(t)
        ctx.close(16*(xx*c*c + 2*q*c*s + yy*s*s), M*M, 'direction of the major axis')
    if not light:
        crossing = getattr(p, '_crossing_number_test', None)
        for w in queries:
            i = X.inside(pts, w)
            if i:
                ctx.eq(bool(p.is_point_inside(V(w))), i > 0, 'is_point_inside {} of {}'.format(w, pts))
                if crossing is not None: # alternative implementation, private
                    ctx.eq(bool(crossing(V(w))), i > 0, 'crossing number test {} of {}'.format(w, pts))
    ctx.eq([xy(q) for q in p.points], pts, 'a query modified the polygon')
    return True

def polygon(case, ctx):
    pts = [tuple(p) for p in case]
    ctx.state(case)
    n = len(pts)
    x0 = min(p[0] for p in pts); x1 = max(p[0] for p in pts); y0 = min(p[1] for p in pts); y1 = max(p[1] for p in pts)
    sx, sy = (x1-x0)/8 or 1, (y1-y0)/8 or 1
    queries = [(F(x0) + F(sx)*i, F(y0) + F(sy)*j) for i in range(-1, 10) for j in range(-1, 10)] if max(abs(x1), abs(y1)) < 50 else []
    queries = [(float(a), float(b)) for a, b in queries]
    simple = X.is_simple(pts)
    ctx.outcome((simple, convex(pts) if simple else None, X.sgn(X.area2(pts))))
    for k in range(n):
        for order in (1, -1):
            q = (pts[k:] + pts[:k])[::order]
            measures(ctx, q, queries, light=k not in (0, 1))
    if simple:
        for d in ((-3, 100), (1000.5, -.25)):
            measures(ctx, [(p[0]+d[0], p[1]+d[1]) for p in pts], [], light=True)

def hull(case, ctx): # hull and simplification of a simple polygon
    pts = [tuple(p) for p in case]
    ctx.state(case)
    if not X.is_simple(pts):
        return
    p = Polygon2D(*[V(q) for q in pts])
    want = X.hull(pts)
    for k in range(2):
        h = p.convex_hull()
        got = [xy(q) for q in h.points]
        i = got.index(want[0]) if want[0] in got else 0
        ctx.eq(got[i:] + got[:i], want, 'convex hull')
        ctx.check(h.is_convex and h.is_counterclockwise, 'convex hull is not convex')
        ctx.close(h.area, X.area2(want)/2, 'area of the hull')
        p.is_convex # must not change the answer
    c = p.clone()
    ctx.check(c == p and c is not p, 'clone')
    ctx.eq(bool(c.is_clockwise), bool(p.is_clockwise), 'orientation of the clone')
    r = p.reverse()
    ctx.eq([xy(q) for q in r.points], pts[::-1], 'reverse'); ctx.eq(bool(r.is_clockwise), not p.is_clockwise, 'orientation of the reverse')
    g = Polygon2D(*[V(q) for q in pts])
    g.recenter()
    ctx.vec(g.barycenter, (0, 0), 'recentred', 1e-6)
    cx, cy = X.centroid(pts)
    for a, b in zip(g.points, pts):
        ctx.vec(a, (b[0]-float(cx), b[1]-float(cy)), 'recentred points')
    ctx.close(g.area, p.area, 'area of the recentred polygon')

def simplified(case, ctx):
    """simplify drops the vertices in the middle of straight parts, and only them"""
    pts, cuts, shift = case
    n = len(pts)
    full, want = [], []
    for i in range(n):
        a, b = pts[i], pts[(i+1) % n]
        full.append(tuple(a))
        if X.cross(pts[i-1], a, b) != 0:
            want.append(tuple(a))
        for k in range(1, cuts[i] + 1):
            full.append((a[0] + (b[0]-a[0])*k/(cuts[i]+1), a[1] + (b[1]-a[1])*k/(cuts[i]+1)))
    shift %= len(full)
    full = full[shift:] + full[:shift]
    ctx.state(full)
    want.sort(key=full.index)
    p = Polygon2D(*[V(q) for q in full])
    for threshold in (1e-6, .25):
        s = p.simplify(threshold)
        ctx.check(s is not None, 'simplify gives no polygon')
        got = [xy(q) for q in s.points]
        ctx.check(got == want, 'simplify({}) of {}: {}, expected {}', threshold, full, got, want)
        ctx.eq(s is p, len(want) == len(full), 'the polygon itself when nothing is dropped')
    ctx.eq([xy(q) for q in p.points], full, 'simplify modified the polygon')
    ctx.outcome((len(full), len(want)))

def regular(case, ctx):
    n, radius, center, angle = case
    ctx.state(case)
    p = RegularPolygon(V(center), radius, n, angle)
    want = [(center[0] + radius*math.cos(math.radians(angle + 360*i/n)), center[1] + radius*math.sin(math.radians(angle + 360*i/n))) for i in range(n)]
    ctx.eq((p.number_of_points, p.number_of_edges), (n, n), 'edges')
    for a, b in zip(p.points, want):
        ctx.vec(a, b, 'vertex')
    ctx.check(p.is_simple and p.is_convex and p.is_counterclockwise, 'kind')
    ctx.close(p.area, n*radius*radius*math.sin(2*math.pi/n)/2, 'area')
    ctx.close(p.perimeter, 2*n*radius*math.sin(math.pi/n), 'perimeter')
    ctx.vec(p.barycenter, center, 'barycenter')
    ctx.vec(p.center, center, 'center'); ctx.close(p.radius, radius, 'radius'); ctx.close(p.angle, angle, 'angle'); ctx.close(p.edge_angle, 360/n, 'edge angle')
    c = p.circumcircle
    ctx.vec(c.center, center, 'circumcircle'); ctx.close(c.radius, radius, 'circumcircle')
    ctx.check(p.is_point_inside(V(center)), 'centre is not inside')
    ctx.check(not p.is_point_inside(V((center[0] + 1.01*radius, center[1]))), 'outside point is inside')
    ctx.check(p.clone() == p, 'clone')

NAMES = {3: 'triangle', 4: 'quadrilateral', 5: 'pentagon', 6: 'hexagon', 7: 'heptagon', 8: 'octagon', 9: 'nonagon', 10: 'decagon', 11: 'hendecagon', 12: 'dodecagon',
         20: 'icosagon', 24: 'icositetragon', 30: 'triacontagon', 40: 'tetracontagon', 21: None, 25: None}

def names(case, ctx):
    n = case
    ctx.state(n)
    ctx.eq(RegularPolygon.ngon_name(n), NAMES[n], 'name')
    ctx.eq(RegularPolygon(V((0, 0)), 1, n).str_name, NAMES[n], 'name')

def first_min(pts):
    return all(pts[0] <= p for p in pts[1:]) and (len(pts) < 3 or pts[1] <= pts[-1])

def scaled(case, ctx):
    pts = case
    ctx.state(('scale', case))
    if not X.is_simple([tuple(p) for p in pts]):
        return
    ps = [(x + .25, y + .375) for x in range(-1, 4) for y in range(-1, 4)]
    def measures(k):
        P = lambda p: V((k*p[0], k*p[1]))
        new = lambda: Polygon2D(*[P(p) for p in pts])
        o = new()
        for name, dim in (('area', 2), ('perimeter', 1), ('is_simple', 0), ('is_convex', 0), ('is_clockwise', 0), ('is_counterclockwise', 0),
                          ('barycenter', 1), ('point_barycenter', 1), ('major_axis', 1), ('minor_axis', 1), ('axis_ratio', 0)):
            yield name, dim, lambda: getattr(o, name)
            yield name + ', first', dim, lambda: getattr(new(), name)
        yield 'inside', 0, lambda: [bool(o.is_point_inside(P(p))) for p in ps]
        yield 'distances', 1, lambda: [o.distance_to_point(P(p)) for p in ps]
        yield 'hull', 1, lambda: o.convex_hull().points
        yield 'bounding box', 1, lambda: [o.bounding_box.x, o.bounding_box.y]
        def recentered():
            n = new()
            n.recenter()
            return n.points
        yield 'recentered', 1, recentered
    scale.covariant(ctx, measures)

def spaces(tier):
    from mc.core import Space
    quick = tier == 'quick'
    g = lambda n: [(x, y) for x in range(n) for y in range(n)]
    def polys():
        for n, m in (((3, 4), (4, 4), (5, 3)) if quick else ((3, 6), (4, 5), (5, 4), (6, 3))):
            for pts in itertools.product(g(m), repeat=n):
                if len(set(pts)) == n and first_min(pts):
                    yield pts
        # repeated vertices
        for n in (3, 4):
            for pts in itertools.product(g(2) + [(2, 0)], repeat=n):
                if len(set(pts)) < n:
                    yield pts
        for pts in itertools.product(g(3), repeat=4):
            if len(set(pts)) == 4 and first_min(pts):
                yield [(x*.125 - 7, 64*y + x) for x, y in pts]
    def hulls():
        for n, m in ((3, 4), (4, 3), (5, 3)):
            for pts in itertools.product(g(m), repeat=n):
                if len(set(pts)) == n and pts[0] <= min(pts):
                    yield pts
    def reg():
        for n in range(3, 13 if quick else 40):
            for r in (1, .25, 30):
                for c in ((0, 0), (3, -2)):
                    for a in (0, 15, 90, -45, 200):
                        yield n, r, c, a
    def simples():
        scale = lambda pts: [(12*x, 12*y) for x, y in pts]
        for n, top in ((3, 2), (4, 1), (5, 0)) if quick else ((3, 3), (4, 2), (5, 1)):
            for pts in itertools.permutations(g(3), n):
                if pts[0] != min(pts) or not X.is_simple(list(pts)):
                    continue
                for cuts in itertools.product(range(top + 1), repeat=n):
                    for shift in range(n + sum(cuts)):
                        yield [scale(pts), cuts, shift]
    return [
        Space('simplify', simples, simplified, 'every simple polygon of 3 to 5 vertices on 3x3, up to {} vertices added on each edge, every first vertex'.format(2 if quick else 3)),
        Space('polygons', polys, polygon, 'every polygon up to renumbering: {}; every renumbering and reversal of each, 121 query points, 2 translations; repeated vertices on 5 points; a skewed 3x3 grid'.format(
            '3 and 4 vertices on 4x4, 5 on 3x3' if quick else '3 on 6x6, 4 on 5x5, 5 on 4x4, 6 on 3x3')),
        Space('derived', hulls, hull, 'every simple polygon of 3 vertices on 4x4, 4 and 5 on 3x3 starting at its least vertex: hull, clone, reverse, recentring'),
        Space('regular', reg, regular, 'regular polygons of 3 to {} edges, 3 radii, 2 centres, 5 angles'.format(12 if quick else 39)),
        Space('names', list(NAMES), names, 'names of regular polygons'),
        Space('scales', lambda: (pts for n, m in ((3, 3), (4, 3), (5, 3)) for pts in itertools.permutations(g(m), n) if first_min(pts) and (n < 5 or sum(pts[1]) % 2)), scaled, 'polygons of 3 to 5 vertices of a 3x3 grid at 5 scales'),
    ]
