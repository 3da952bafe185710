"""C15: the convex hull of every small point set, in every order, against an exact oracle."""
import itertools
from mc import exact as X
from Patro.GeometryEngine.Polygon import Polygon2D, convex_hull
from Patro.GeometryEngine.Vector import Vector2D

PROPERTY = 'C15'
ASSUMPTIONS = ['but on rays, where the hull is checked up to the rounding, coordinates are small dyadic numbers, the oracle (monotone chain on exact numbers) shares no code with the implementation']

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def one(ctx, pts):
    want = X.hull(pts)
    objs = [V(p) for p in pts]
    raw = [xy(p) for p in convex_hull(objs, as_polygon=False)]
    obj = convex_hull(tuple(objs))
    ctx.outcome(len(want))
    if len(want) >= 3:
        ctx.check(isinstance(obj, Polygon2D), 'the hull of {} is {}', pts, obj)
        got = [xy(p) for p in obj.points]
        # the first point is the leftmost one having the smallest ordinate
        i = want.index(min(want, key=lambda p: (p[1], p[0])))
        ctx.eq(got, want[i:] + want[:i], 'hull of {}'.format(pts))
        ctx.eq(raw, got, 'hull as list of {}'.format(pts))
        ctx.check(bool(obj.is_convex) and bool(obj.is_counterclockwise) and not obj.is_clockwise, 'declared orientation')
        ctx.close(obj.area, X.area2(want)/2, 'area')
    else:
        # aligned points: the hull is a segment or a point
        got = [xy(p) for p in obj]
        ctx.eq(sorted(got), want, 'hull of the aligned points {}'.format(pts))
        ctx.eq(sorted(raw), want, 'hull as list of {}'.format(pts))
    ctx.eq([xy(p) for p in objs], [tuple(p) for p in pts], 'the points were modified')

def orders(case, ctx):
    """every order of the points, and translations"""
    pts = [tuple(p) for p in case]
    ctx.state(case)
    for q in set(itertools.permutations(pts)):
        one(ctx, list(q))
    for d, k in (((-5, 3), 1), ((.5, -100), .25), ((7, 7), -1), ((0, 3), 2.**-9), ((-5, 3), 2.**13)):
        one(ctx, [(p[0]*k + d[0], p[1]*k + d[1]) for p in pts])

STEPS = [.1, .7, 1/3, 1.1, 1e-3, 3.]
OTHERS = [[(-1., 50.)], [(-30., .5)], [(40., 1.), (-2., 60.)], [(60., 0.)], []]
PLACES = [(0., 0.), (.3, -.2), (1e3, .1)]

def rounded(case, ctx):
    """points on a ray whose coordinates are rounded: the hull encloses them up to the rounding"""
    step, a, b, multiples, others, place = case
    pts = [(0., 0.)] + [(m*a*step, m*b*step) for m in multiples] + OTHERS[others]
    if a < 0:
        pts = [(-x, y) for x, y in pts]
    pts = [(x + PLACES[place][0], y + PLACES[place][1]) for x, y in pts]
    ctx.state(case)
    size = max(abs(x - y) for p, q in itertools.combinations(pts, 2) for x, y in zip(p, q))
    eps = 1e-9*size
    for order in (pts, pts[::-1], pts[1:] + pts[:1]):
        ctx.step()
        hull = [xy(p) for p in convex_hull([V(p) for p in order], as_polygon=False)]
        ctx.check(all(p in pts for p in hull) and len(set(hull)) == len(hull), 'vertices {} of the hull of {}', hull, order)
        ctx.eq(hull[0], min(pts, key=lambda p: (p[1], p[0])), 'first vertex')
        n = len(hull)
        ctx.check(n >= 2, 'hull {} of {}', hull, order)
        for p, q in zip(hull, hull[1:] + hull[:1]):
            u, v = q[0] - p[0], q[1] - p[1]
            l = (u*u + v*v)**.5
            for r in pts:
                d = (u*(r[1] - p[1]) - v*(r[0] - p[0]))/l
                ctx.check(d >= -eps, '{} is out of the hull {} of {}', r, hull, order)
        if n == 2:
            ctx.check(all(min(hull[0][i], hull[1][i]) - eps <= r[i] <= max(hull[0][i], hull[1][i]) + eps for r in pts for i in (0, 1)), 'the hull {} does not cover {}', hull, order)
        for k in range(n if n > 2 else 0):
            p, q, r = hull[k-2], hull[k-1], hull[k]
            ctx.check((q[0] - p[0])*(r[1] - p[1]) - (q[1] - p[1])*(r[0] - p[0]) > -eps*size, 'turn at {} of the hull {}', q, hull)
        ctx.outcome(n)

def subsets(case, ctx):
    bits, order, n = case
    g = [(x, y) for x in range(n) for y in range(n)]
    pts = [p for i, p in enumerate(g) if bits >> i & 1]
    ctx.state((bits, n))
    k = len(pts)
    if order == 1:
        pts = pts[::-1]
    elif order == 2:
        pts = pts[::2] + pts[1::2]
    elif order == 3:
        pts = sorted(pts, key=lambda p: (p[1], -p[0]))
    elif order == 4:
        pts = pts + pts[:2] + pts[-1:]
    one(ctx, pts)

# neighbours: points very close to others, the hull still holds every extreme one

BASES = [[(0, 0), (4, 0), (4, 2), (0, 2)], [(-1, 3), (2, 0), (5, 4)], [(0, 1), (2, 0), (4, 1), (3, 4), (1, 4)]]
AROUND = [(dx, dy) for dx in (-1, 0, 1) for dy in (-1, 0, 1) if dx or dy]

def neighbours(case, ctx):
    base, moves = case
    ctx.state(case)
    pts = [tuple(map(float, p)) for p in BASES[base]]
    pts += [(pts[i][0] + dx*2.**-k, pts[i][1] + dy*2.**-k) for i, (dx, dy), k in moves]
    for q in (pts, pts[::-1], pts[2:] + pts[:2]):
        one(ctx, q)

def neighbour_cases(tier):
    ks = (10, 15, 18, 21) if tier == 'quick' else range(8, 23)
    for b, pts in enumerate(BASES):
        singles = [(i, d, k) for i in range(len(pts)) for d in AROUND for k in ks]
        yield from ([b, [m]] for m in singles)
        for x, y in itertools.combinations([m for m in singles if m[2] in (10, 15)], 2):
            if tier != 'quick' or x[0] == y[0] or (x[2] == y[2] and x[1] == y[1]):
                yield [b, [x, y]]

def spaces(tier):
    from mc.core import Space
    quick = tier == 'quick'
    g3 = [(x, y) for x in range(3) for y in range(3)]
    g4 = [(x, y) for x in range(4) for y in range(4)]
    def multis():
        for n in range(1, 5 if quick else 6):
            yield from itertools.combinations_with_replacement(g4 if n < (5 if quick else 6) else g3, n)
        yield from itertools.combinations_with_replacement(g3, 5 if quick else 6)
    def subs():
        for bits in range(1, 1 << 9):
            for order in range(5):
                yield bits, order, 3
        for bits in range(1, 1 << 16):
            for order in ((0, 2) if quick else range(5)):
                yield bits, order, 4
    def rays():
        n = 10 if quick else 16
        for step in STEPS:
            for a in range(-n, n+1):
                for b in range(0 if a > 0 else 1, n+1):
                    for multiples in ((1, 2), (1, 3), (1, 5), (1, 7), (2, 3), (1, 3, 7), (5, 6)) + (() if quick else ((1, 2, 3, 6), (1, 11), (3, 13))):
                        for others in range(len(OTHERS)):
                            for place in range(len(PLACES)) if not quick or others < 2 else (0,):
                                yield step, a, b, multiples, others, place
    return [
        Space('neighbours', lambda: neighbour_cases(tier), neighbours, 'points of 3 polygons, with one and two points next to them in 8 directions, down to 2^-21 (two: 2^-15)'),
        Space('rays', rays, rounded, 'points on every ray of a grid with inexact steps, with other points, at 3 places, in 3 orders: enclosed up to the rounding'),
        Space('orders', multis, orders, 'every multiset of 1 to {} points of a 4x4 grid and of {} points of a 3x3 grid, in every order and five similar copies'.format(*((4, 5) if quick else (5, 6)))),
        Space('subsets', subs, subsets, 'every subset of a 3x3 grid (5 orders, one with duplicates) and of a 4x4 grid ({} orders)'.format(2 if quick else 5)),
    ]
