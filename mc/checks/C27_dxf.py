"""C27: DXF entities and polylines with bulges."""
import itertools, math, os, shutil, tempfile
import ezdxf
from mc.core import Space
from mc.gen import seqs_upto
from Patro.FileFormat.Dxf.Importer import DxfImporter
from Patro.FileFormat.Dxf.Polyline import Polyline
from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Spline import BSpline2D
from Patro.GeometryEngine.Vector import Vector2D

PROPERTY = 'C27'
ASSUMPTIONS = ['splines are clamped and not rational', 'entities lie in planes parallel to XY, seen from above or from below',
               'the way round an arc is travelled is not specified, only the points it covers']

def vec(ctx, got, want, msg):
    ctx.vec(got, want, msg, tol=1e-7)

def bulge_arc(p, q, b):
    """centre, radius, apex, sweep of a bulged edge, from the definition of the bulge"""
    dx, dy = q[0] - p[0], q[1] - p[1]
    mx, my = (p[0] + q[0])/2, (p[1] + q[1])/2
    chord = math.hypot(dx, dy)
    right = (dy/chord, -dx/chord)
    s = b*chord/2
    apex = (mx + right[0]*s, my + right[1]*s)
    # the centre is equidistant of p and apex, on the axis of the edge
    k = (s*s - (chord/2)**2)/(2*s)
    centre = (mx + right[0]*k, my + right[1]*k)
    return centre, math.hypot(p[0] - centre[0], p[1] - centre[1]), apex, 4*math.atan(abs(b))

def direction(c, p):
    return math.degrees(math.atan2(p[1] - c[1], p[0] - c[0]))

def check_arc(ctx, arc, centre, radius, ends, inside, sweep, msg):
    ctx.check(isinstance(arc, Circle2D), '{} is a {}', msg, type(arc).__name__)
    vec(ctx, arc.center, centre, msg + ': centre')
    ctx.close(arc.radius, radius, msg + ': radius')
    got = [(p.x, p.y) for p in (arc.start_point, arc.stop_point)]
    ok = any(all(math.dist(a, b) < 1e-6*(1 + radius) for a, b in zip(got, order)) for order in (ends, ends[::-1]))
    ctx.check(ok, '{}: ends {} instead of {}', msg, got, ends)
    ctx.close(arc.domain.length, sweep, msg + ': sweep')
    for p in inside:
        ctx.check(arc.domain.is_inside(direction(centre, p)), '{}: {} is not on the arc', msg, p)
        ctx.check(not arc.domain.is_inside(direction(centre, [2*c - x for c, x in zip(centre, p)])) or sweep > math.pi - 1e-6, '{}: the opposite of {} is on the arc', msg, p)
    ctx.close(arc.perimeter, radius*sweep, msg + ': length')

def check_polyline(ctx, items, vertices, bulges, closed):
    n = len(vertices)
    edges = n if closed else max(n - 1, 0)
    ctx.eq(len(items), edges, 'number of edges')
    for i in range(edges):
        p, q, b = vertices[i], vertices[(i+1) % n], bulges[i]
        item, msg = items[i], 'edge {} {}-{} bulge {}'.format(i, p, q, b)
        if b and p != q:
            c, r, apex, sweep = bulge_arc(p, q, b)
            check_arc(ctx, item, c, r, [p, q], [apex], sweep, msg)
        else:
            ctx.check(isinstance(item, Segment2D), '{} is a {}', msg, type(item).__name__)
            vec(ctx, item.p0, p, msg); vec(ctx, item.p1, q, msg)

def run_polyline(case, ctx):
    points, bulges, closed = case
    points = [tuple(p) for p in points]
    polyline = Polyline(bool(closed)) if closed or len(points) % 2 else Polyline()
    for i, (p, b) in enumerate(zip(points, bulges)):
        ctx.eq(len(polyline), i, 'number of vertices')
        if b:
            polyline.add(Vector2D(*p), b)
        else:
            polyline.add(Vector2D(*p))
    n = len(points)
    ctx.eq((len(polyline), polyline.closed), (n, bool(closed)), 'vertices, closed')
    for turn in range(2):
        check_polyline(ctx, polyline.geometry(), points, bulges, closed)
    vertices = list(polyline)
    follow = [(i, (i+1) % n) for i in range(n if closed else max(n-1, 0))]
    ctx.eq([(vertices.index(a), vertices.index(b)) for a, b in polyline.iter_on_segment()], follow, 'edges')
    follow = dict(follow)
    back = {b: a for a, b in follow.items()}
    for i, v in enumerate(vertices):
        ctx.check(polyline[i] is v, 'vertex {}', i)
        vec(ctx, v.point, points[i], 'vertex')
        ctx.eq((v.x, v.y, v.bulge), (*points[i], bulges[i]), 'vertex {}'.format(i))
        ctx.check(v.next is (vertices[follow[i]] if i in follow else None), 'next of vertex {}', i)
        ctx.check(v.prev is (vertices[back[i]] if i in back else None), 'previous of vertex {}', i)
        if i in follow:
            q = points[follow[i]]
            half = math.dist(points[i], q)/2
            b = bulges[i]
            vec(ctx, v.segment_vector, [y - x for x, y in zip(points[i], q)], 'edge vector')
            ctx.close(v.demi_chord, half, 'half chord')
            ctx.close(v.sagitta, half*b, 'sagitta')
            ctx.close(v.bulge_radius, bulge_arc(points[i], q, b)[1] if b else 0, 'radius')
    str(polyline)
    ctx.state(case)
    ctx.outcome(tuple(type(x).__name__ for x in polyline.geometry()) + (closed,))

def polylines(n, grid, bulges):
    for points in itertools.product(grid, repeat=n):
        if any(a == b for a, b in zip(points, points[1:])):
            continue
        for closed in (0, 1):
            if closed and (n < 2 or points[0] == points[-1]):
                continue
            for b in itertools.product(bulges, repeat=n):
                yield points, b, closed

G3 = [(x, y) for x in (0, 1, 3) for y in (0, 2, 3)]
G2 = [(0, 0), (2, 0), (2, 1), (-1, 1)]
B9 = [0, 1, -1, .5, -.5, 2, -3, .0625, -.0625]

FLAT = [0, .01, -.01, 1e-3, -2e-4, 40, -300]

def polyline_cases(tier):
    q = tier == 'quick'
    yield (), (), 0
    yield from polylines(2, G3, FLAT)
    yield from polylines(3, G2, FLAT)
    for n, grid, bulges in [(1, G3, B9), (2, G3, B9), (3, G3, B9[:5] if q else B9), (4, G2, B9[:5]), (3, G2, B9)] + ([] if q else [(4, G3, B9[:3]), (5, G2, B9[:3])]):
        yield from polylines(n, grid, bulges)

# ---------------------------------------------------------------- files

class Doc:
    def __init__(self, directory=None):
        # its own directory, or the one given, where the former file is replaced
        self.own = directory is None
        self.dir = directory
    def __enter__(self):
        if self.own:
            self.dir = tempfile.mkdtemp(prefix='mc-dxf-')
        self.doc = ezdxf.new('R2010')
        self.space = self.doc.modelspace()
        self.count = 0
        return self
    def read(self):
        path = os.path.join(self.dir, 'a b.dxf')
        self.doc.saveas(path)
        return DxfImporter(path)
    def __exit__(self, *args):
        if self.own:
            shutil.rmtree(self.dir)

def de_boor(points, degree, knots, t):
    n = len(points)
    k = max(i for i in range(degree, n) if knots[i] <= t and knots[i] < knots[i+1])
    d = [points[j + k - degree] for j in range(degree + 1)]
    for r in range(1, degree + 1):
        for j in range(degree, r - 1, -1):
            lo, hi = knots[j + k - degree], knots[j + 1 + k - r]
            a = (t - lo)/(hi - lo)
            d[j] = tuple((1 - a)*x + a*y for x, y in zip(d[j-1], d[j]))
    return d[degree]

def spline_knots(n, degree, kind):
    spans = n - degree
    if kind == 'uniform':
        inner = list(range(1, spans))
        end = spans
    elif kind == 'unit':
        inner = [i/spans for i in range(1, spans)]
        end = 1
    elif kind == 'shifted':
        return [x*2.5 + 3 for x in spline_knots(n, degree, 'uniform')]
    else:
        inner = [i*i for i in range(1, spans)]
        end = spans*spans
    return [0]*(degree + 1) + inner + [end]*(degree + 1)

ABOVE, BELOW = 0, 1

def write(space, e, side=ABOVE, z=0):
    """write an entity; *side*: the side its plane is seen from, *z*: elevation and, when not null, width of the polylines"""
    kind = e[0]
    attribs = dict(extrusion=(0, 0, -1)) if side == BELOW else {}
    # the points of flat entities are given in the system of the entity, whose x axis is reversed
    flat = lambda p: (-p[0] if side == BELOW else p[0], p[1], z)
    if kind == 'line':
        space.add_line((*e[1], z), (*e[2], z/2), dxfattribs=attribs)
    elif kind == 'circle':
        space.add_circle(flat(e[1]), e[2], dxfattribs=attribs)
    elif kind == 'arc':
        a, b = (180 - e[4], 180 - e[3]) if side == BELOW else (e[3], e[4])
        space.add_arc(flat(e[1]), e[2], a, b, dxfattribs=attribs)
    elif kind == 'ellipse':
        # the points are given in the world, the angle goes clockwise when seen from below
        c, major, ratio, a, b = e[1:]
        if side == BELOW:
            a, b = 360 - b, 360 - a
        space.add_ellipse((*c, z), major, ratio, math.radians(a), math.radians(b), dxfattribs=attribs)
    elif kind == 'polyline':
        if z:
            attribs['elevation'] = z
            vertices = [(*flat(p)[:2], z*.25, k + 1, -b if side == BELOW else b) for k, (p, b) in enumerate(zip(e[1], e[2]))]
            space.add_lwpolyline(vertices, format='xyseb', close=bool(e[3]), dxfattribs=attribs)
        else:
            space.add_lwpolyline([(*flat(p)[:2], -b if side == BELOW else b) for p, b in zip(e[1], e[2])], format='xyb', close=bool(e[3]), dxfattribs=attribs)
    elif kind == 'spline':
        space.add_open_spline(e[1], e[2], knots=spline_knots(len(e[1]), e[2], e[3]))
    elif kind == 'text':
        space.add_text('a')
    elif kind == 'point':
        space.add_point((1, 2))
    elif kind == 'solid':
        space.add_solid([(0, 0), (1, 0), (1, 1)])

def verify(ctx, item, e):
    kind = e[0]
    if kind == 'line':
        ctx.check(isinstance(item, Segment2D), 'LINE gives a {}', type(item).__name__)
        vec(ctx, item.p0, e[1], 'line start'); vec(ctx, item.p1, e[2], 'line end')
    elif kind == 'circle':
        ctx.check(isinstance(item, Circle2D), 'CIRCLE gives a {}', type(item).__name__)
        vec(ctx, item.center, e[1], 'circle centre'); ctx.close(item.radius, e[2], 'circle radius')
        ctx.check(item.domain is None and item.is_closed, 'a circle is closed')
    elif kind == 'arc':
        c, r, a, b = e[1:]
        at = lambda t: (c[0] + r*math.cos(math.radians(t)), c[1] + r*math.sin(math.radians(t)))
        sweep = (b - a) % 360
        check_arc(ctx, item, c, r, [at(a), at(b)], [at(a + sweep*k/4) for k in (1, 2, 3)], math.radians(sweep), 'ARC {}'.format(e))
    elif kind == 'ellipse':
        c, major, ratio, a, b = e[1:]
        minor = (-major[1]*ratio, major[0]*ratio)
        at = lambda t: tuple(c[i] + major[i]*math.cos(math.radians(t)) + minor[i]*math.sin(math.radians(t)) for i in (0, 1))
        ctx.check(isinstance(item, Ellipse2D), 'ELLIPSE gives a {}', type(item).__name__)
        vec(ctx, item.center, c, 'ellipse centre')
        sweep = (b - a) % 360
        if sweep == 0:
            ctx.check(item.is_closed, '{} is closed', e)
            # conjugate points of the ellipse
            for k in range(8):
                p = item.point_at_angle(45*k)
                x, y = p.x - c[0], p.y - c[1]
                u = (x*major[0] + y*major[1])/(major[0]**2 + major[1]**2)
                v = (x*minor[0] + y*minor[1])/(minor[0]**2 + minor[1]**2)
                ctx.close(u*u + v*v, 1, '{}: {} is not on the ellipse'.format(e, (p.x, p.y)))
            ctx.close(sorted((item.radius_x, item.radius_y))[0], math.hypot(*minor), 'minor radius')
            ctx.close(sorted((item.radius_x, item.radius_y))[1], math.hypot(*major), 'major radius')
        else:
            vec(ctx, item.start_point, at(a), '{}: start'.format(e)); vec(ctx, item.stop_point, at(b), '{}: end'.format(e))
            ctx.close(item.domain.length, math.radians(sweep), '{}: sweep'.format(e))
            for k in (1, 2, 3):
                vec(ctx, item.point_at_angle(item.domain.start + sweep*k/4), at(a + sweep*k/4), '{}: point {}/4'.format(e, k))
    elif kind == 'polyline':
        ctx.check(isinstance(item, list), 'LWPOLYLINE gives a {}', type(item).__name__)
        check_polyline(ctx, item, [tuple(p) for p in e[1]], e[2], e[3])
    elif kind == 'spline':
        points, degree, knots = [tuple(p) for p in e[1]], e[2], e[3]
        knots = spline_knots(len(points), degree, knots)
        ctx.check(isinstance(item, BSpline2D), 'SPLINE gives a {}', type(item).__name__)
        ctx.eq(item.degree, degree, 'degree')
        got = list(item.points)
        ctx.eq(len(got), len(points), 'control points')
        for a, b in zip(got, points):
            vec(ctx, a, b, 'control point')
        lo, hi = item.start_knot, item.end_knot
        for k in range(13):
            t = knots[0] + (knots[-1] - knots[0])*k/12
            vec(ctx, item.point_at_t(lo + (hi - lo)*k/12), de_boor(points, degree, knots, t), '{}: point at {}/12'.format(e, k))

SKIPPED = ('text', 'point', 'solid')

def run_document(case, ctx):
    side, z = ABOVE, 0
    if case[0] == 'placed':
        side, z, case = case[1:]
    scale_, offset = 1, (0, 0)
    if case[0] == 'moved':
        scale_, offset, side, case = case[1:]
    entities = [move(e, scale_, offset) for e in expand(case)]
    with Doc() as doc:
        if z:
            # neither the paper nor the definitions of blocks are in the model
            write(doc.doc.layout('Layout1'), SAMPLE[0])
            write(doc.doc.blocks.new('B'), SAMPLE[1])
        for e in entities:
            write(doc.space, e, side, z)
        items = doc.read()
        ctx.step(len(entities))
    want = [e for e in entities if e[0] not in SKIPPED]
    ctx.eq(len(items), len(want), 'number of items')
    ctx.eq(len(list(items)), len(want), 'iteration')
    for i, (item, e) in enumerate(zip(items, want)):
        ctx.check(items[i] is item, 'item {}', i)
        verify(ctx, item, e)
        ctx.state(e)
        ctx.outcome(repr(e))
    ctx.state(case)

def rewritten(case, ctx):
    """files written at the same place, each imported when it is there"""
    d = tempfile.mkdtemp(prefix='mc-dxf-')
    live = []
    try:
        for sequence in case:
            with Doc(d) as doc:
                for i in sequence:
                    write(doc.space, SAMPLE[i])
                live.append((doc.read(), [SAMPLE[i] for i in sequence if SAMPLE[i][0] not in SKIPPED]))
                ctx.step()
            for items, want in live:
                ctx.eq(len(items), len(want), 'number of items')
                for item, e in zip(items, want):
                    verify(ctx, item, e)
    finally:
        shutil.rmtree(d)
    ctx.state(case)

def rewritten_cases(tier):
    files = [[]] + [[i] for i in range(len(SAMPLE))] + [[0, 1], [5, 7]]
    for n in (2,) if tier == 'quick' else (2, 3):
        yield from (list(c) for c in itertools.product(files, repeat=n))

PLACES = [(.125, (-.75, -2.5)), (64, (-130, -1000)), (1e-3, (0, 0))]
CENTRES = [(0, 0), (1, -2)]
MAJORS = [(2, 0), (-2, 0), (0, 2), (0, -2), (3, 4), (-1, 1), (1, -3)]
CONTROL = [(0, 0), (1, 3), (3, 3), (4, 0), (6, -2), (7, 1), (8, 8)]

def expand(case):
    """entities of a document"""
    kind, rest = case[0], case[1:]
    if kind == 'lines':
        return [('line', G3[rest[0]], q) for q in G3 if q != G3[rest[0]]]
    if kind == 'arcs':
        c, r = CENTRES[rest[0]], rest[1]
        return [('circle', c, r)] + [('arc', c, r, rest[2], b) for b in range(0, 361, 15) if (b - rest[2]) % 360]
    if kind == 'ellipses':
        c, major, ratio, a = CENTRES[rest[0]], MAJORS[rest[1]], rest[2], rest[3]
        return [('ellipse', c, major, ratio, 0, 360)] + [('ellipse', c, major, ratio, a, b) for b in range(15, 361, 15) if b > a] + [('ellipse', c, major, ratio, a, b) for b in (0, 30, 90) if b < a] + [('ellipse', c, major, ratio, a - 360, b - 360) for b in (45, 180, 360) if b > a] + [('ellipse', c, major, ratio, a, b) for b in (400, 500) if a < b < a + 360]
    if kind == 'polylines':
        n, first, second = rest
        return [('polyline', p, b, c) for p, b, c in polylines(n, G2, B9[:5] if n < 4 else B9[:3]) if p[0] == G2[first] and p[1] == G2[second]]
    if kind == 'splines':
        n, degree = rest
        return [('spline', points, degree, k) for k in ('uniform', 'unit', 'shifted', 'squares') for points in (CONTROL[:n], CONTROL[-n:], CONTROL[:n][::-1])]
    if kind == 'double':
        return [('polyline', p, b, c) for n, bulges in ((2, B9[:5]), (3, B9[:5]), (4, [0, .5])) for p in itertools.product(G2[:2] if n > 3 else G2[:3], repeat=n)
                if p[0] == G2[rest[0]] and (any(x == y for x, y in zip(p, p[1:])) or p[0] == p[-1]) for b in itertools.product(bulges, repeat=n) for c in (0, 1)]
    return [SAMPLE[i] for i in rest[0]]

def move(e, k, o):
    """an entity scaled and translated"""
    P = lambda p: (k*p[0] + o[0], k*p[1] + o[1])
    kind, rest = e[0], list(e[1:])
    if (k, tuple(o)) == (1, (0, 0)) or kind in SKIPPED:
        return e
    if kind == 'line':
        rest = [P(p) for p in rest]
    elif kind in ('circle', 'arc'):
        rest[:2] = P(rest[0]), k*rest[1]
    elif kind == 'ellipse':
        rest[:2] = P(rest[0]), tuple(k*x for x in rest[1])
    else:
        rest[0] = [P(p) for p in rest[0]]
    return (kind, *rest)

SAMPLE = [('line', (0, 1), (2, 3)), ('circle', (1, 2), 3), ('arc', (0, 0), 2, 330, 45), ('ellipse', (1, 1), (0, 3), .5, 30, 100), ('ellipse', (1, 1), (3, 1), .25, 0, 360),
          ('polyline', [(0, 0), (2, 0), (2, 1)], (.5, 0, -1), 1), ('polyline', [(0, 0), (2, 0), (2, 1)], (0, -.5, 1), 0), ('spline', CONTROL[:5], 3, 'squares'),
          ('text',), ('point',), ('solid',)]

def document_cases(tier):
    for case in plain_cases(tier):
        yield case
        if case[0] != 'sequence' or len(case[1]) == 1:
            yield ['placed', BELOW, 0, case]
            yield ['placed', ABOVE, 2.5, case]
            yield ['placed', BELOW, -1, case]
            for k, o in PLACES if tier != 'quick' else PLACES[1:2] if case[0] in ('polylines', 'arcs', 'ellipses') else PLACES[:2]:
                yield ['moved', k, o, ABOVE, case]
                yield ['moved', k, o, BELOW, case]

def plain_cases(tier):
    q = tier == 'quick'
    for i in range(len(G3)):
        yield ['lines', i]
    for c in range(2):
        for r in (1, 2.5):
            for a in range(0, 361, 45 if q else 15):
                yield ['arcs', c, r, a]
        for m in range(len(MAJORS)):
            for ratio in (.25, .5, 1):
                for a in range(0, 360, 45 if q else 15):
                    yield ['ellipses', c, m, ratio, a]
    for n in (2, 3) if q else (2, 3, 4):
        for i, j in itertools.permutations(range(len(G2)), 2):
            yield ['polylines', n, i, j]
    for i in range(3):
        yield ['double', i]
    for n in range(2, 8):
        for degree in range(1, min(n, 5)):
            yield ['splines', n, degree]
    for seq in seqs_upto(range(len(SAMPLE)), 0, 2 if q else 3):
        yield ['sequence', list(seq)]

def spaces(tier):
    return [
        Space('rewritten', lambda: rewritten_cases(tier), rewritten, 'every sequence of {} of 14 files written and imported at one place'.format(2 if tier == 'quick' else '2 and 3')),
        Space('polylines', lambda: polyline_cases(tier), run_polyline, 'every polyline of up to {} grid vertices with every assignment of bulges, open and closed'.format(4 if tier == 'quick' else 5)),
        Space('documents', lambda: document_cases(tier), run_document, 'every entity of the alphabets written to DXF files and imported, seen from both sides, at elevations, scaled and moved; every sequence of sample entities'),
    ]
