"""C16: no geometry object answers from a superseded state, and clones are independent."""
import itertools
import logging
import math

import numpy as np

from mc.core import Space

from Patro.GeometryEngine.Bezier import CubicBezier2D, QuadraticBezier2D
from Patro.GeometryEngine.Conic import AngularDomain, Circle2D, Ellipse2D
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Primitive import PointPrimitive
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Spline import BSpline2D, CubicUniformSpline2D, QuadraticUniformSpline2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D as A2, Transformation2D as T2
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D

PROPERTY = 'C16'

logging.disable(logging.CRITICAL)

def V(p):
    return Vector2D(p[0], p[1])

####################################################################################################
# canonical form of any answer

def turn(a):
    return [math.cos(math.radians(a)), math.sin(math.radians(a))]

def canon(v):
    if v is None or isinstance(v, (bool, np.bool_, str)):
        return v if not isinstance(v, np.bool_) else bool(v)
    if isinstance(v, (int, float, np.number)):
        return float(v)
    if isinstance(v, np.ndarray):
        return [canon(x) for x in v.tolist()]
    if hasattr(v, 'x') and hasattr(v, 'y') and hasattr(v, 'magnitude'):
        return [float(v.x), float(v.y)]
    if hasattr(v, 'x') and hasattr(v.x, 'inf'):
        return [float(v.x.inf), float(v.x.sup), float(v.y.inf), float(v.y.sup)]
    if isinstance(v, Line2D):
        return ['Line', canon(v.p), canon(v.v)]
    if isinstance(v, (Circle2D, Ellipse2D)):
        d = v.domain
        r = [v.radius] if isinstance(v, Circle2D) else [v.radius_x, v.radius_y, v.angle]
        return [type(v).__name__, canon(v.center), r, None if d is None else turn(d.start) + turn(d.stop) + turn(d.stop - d.start)]
    if isinstance(v, Path2D):
        return ['Path', canon(v.p0), [canon(p.geometry) for p in v], bool(v.is_closed)]
    if isinstance(v, PointPrimitive):
        return [type(v).__name__, [canon(p) for p in v.points]]
    if isinstance(v, dict):
        return sorted((k, canon(x)) for k, x in v.items())
    if hasattr(v, '__iter__'):
        return [canon(x) for x in v]
    return type(v).__name__

def same(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol*max(1, abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return type(a) == type(b) and a == b

def ask(query, obj):
    try:
        return canon(query(obj))
    except Exception as e:
        return 'raises ' + type(e).__name__

####################################################################################################
# mutations: on the object, and exactly on its points

SHEAR = T2((1, 1, 0, 1))
A = A2.Translation(Vector2D(3, -2))
B = A2.RotationAt(Vector2D(1, 1), 90)
TRANSFORMS = {
    'rotate': (lambda o, c: o.rotate(90, c), lambda p: (-p[1], p[0])),
    'scale': (lambda o, c: o.scale(2, .5, c), lambda p: (2*p[0], p[1]/2)),
    'xmirror': (lambda o, c: o.x_mirror(c), lambda p: (-p[0], p[1])),
    'parity': (lambda o, c: o.mirror(c), lambda p: (-p[0], -p[1])),
    'shear': (lambda o, c: o.transform(SHEAR, c), lambda p: (p[0] + p[1], p[1])),
    'translate': (lambda o, c: o.transform(A, c), lambda p: (p[0] + 3, p[1] - 2)),
    'turn': (lambda o, c: o.transform(B, c), lambda p: (2 - p[1], p[0])),
    'identity': (lambda o, c: o.transform(T2.Identity(), c), lambda p: p),
}

def barycenter(pts):
    a = sum(p[0]*q[1] - q[0]*p[1] for p, q in zip(pts, pts[1:] + pts[:1]))/2
    return tuple(sum((p[i] + q[i])*(p[0]*q[1] - q[0]*p[1]) for p, q in zip(pts, pts[1:] + pts[:1]))/6/a for i in (0, 1))

PROBES = [(0, 0), (1, 1), (2.5, 1.25), (-3, 2), (6, -1)]

def probe(f):
    return [lambda o, p=p: f(o, V(p)) for p in PROBES[:3]]

COMMON = {
    'points': lambda o: [list(getattr(o, n)() if n[:4] == 'iter' else getattr(o, n)) for n in ('points', 'reversed_points', 'iter_from_second_point', 'closed_points', 'closed_pairwise_points') if hasattr(o, n)], 'number_of_points': lambda o: o.number_of_points, 'array': lambda o: o.point_array,
    'box': lambda o: o.bounding_box, 'start': lambda o: o.start_point, 'end': lambda o: o.end_point, 'reverse': lambda o: o.reverse(),
    'clone': lambda o: o.clone(), 'is_closed': lambda o: o.is_closed,
}

def at(o, f, ts=(0, .25, .5, 1)):
    return [f(t) for t in ts]

def pts(o, f):
    return [f(V(p)) for p in PROBES]

KINDS = {
    'Segment': (Segment2D, {
        'vector': lambda o: o.vector, 'length': lambda o: o.length, 'center': lambda o: o.center, 'cross': lambda o: o.cross_product,
        'line': lambda o: o.to_line(), 'side': lambda o: [pts(o, f) for f in (o.side_of, o.left_of, o.right_of, o.is_collinear)], 'distance': lambda o: pts(o, o.distance_to_point),
        'contain': lambda o: pts(o, o.contain_point), 'interpolate': lambda o: at(o, o.interpolate),
        'meet': lambda o: o.intersect_with(Segment2D(V((0, 3)), V((3, 0)))),
    }, [[(0, 0), (4, 2)], [(1, 3), (1, -1)]]),
    'Triangle': (Triangle2D, {
        'edges': lambda o: o.edges, 'perimeter': lambda o: o.perimeter, 'area': lambda o: o.area, 'obtuse': lambda o: o.is_obtuse,
        'acute': lambda o: o.is_acute, 'equilateral': lambda o: o.is_equilateral, 'scalene': lambda o: o.is_scalene,
        'isosceles': lambda o: o.is_isosceles, 'bisectors': lambda o: [o.bisector_line0, o.bisector_line1, o.bisector_line2],
        'inside': lambda o: pts(o, o.is_point_inside), 'polygon': lambda o: o.to_polygon(), 'path': lambda o: o.to_path(),
    }, [[(0, 0), (4, 0), (1, 3)], [(0, 0), (1, 3), (2, 0)], [(0, 0), (6, 1), (1, 1)]]),
    'Rectangle': (Rectangle2D, {
        'edges': lambda o: o.edges, 'diagonal': lambda o: o.diagonal, 'perimeter': lambda o: o.perimeter, 'area': lambda o: o.area,
        'corners': lambda o: [o.p01, o.p10], 'inside': lambda o: pts(o, o.is_point_inside), 'distance': lambda o: pts(o, o.distance_to_point),
        'polygon': lambda o: o.to_polygon(), 'path': lambda o: o.to_path(),
    }, [[(0, 0), (4, 2)], [(-1, -2), (1, 3)]]),
    'Polyline': (Polyline2D, {
        'edges': lambda o: o.edges, 'length': lambda o: o.length, 'distance': lambda o: pts(o, o.distance_to_point), 'path': lambda o: o.to_path(),
        'slice': lambda o: o[1:], 'pairs': lambda o: o.iter_on_nuplets(2),
    }, [[(0, 0), (4, 0), (1, 3), (2, 5)], [(0, 0), (2, 0)]]),
    'Polygon': (Polygon2D, {
        'edges': lambda o: o.edges, 'simple': lambda o: o.is_simple, 'convex': lambda o: o.is_convex, 'concave': lambda o: o.is_concave,
        'hull': lambda o: o.convex_hull(), 'perimeter': lambda o: o.perimeter, 'mean': lambda o: o.point_barycenter, 'area': lambda o: o.area,
        'clockwise': lambda o: o.is_clockwise, 'counterclockwise': lambda o: o.is_counterclockwise, 'barycenter': lambda o: o.barycenter,
        'axis angle': lambda o: o.major_axis_angle % 180, 'axes': lambda o: [o.major_axis, o.minor_axis], 'axis ratio': lambda o: o.axis_ratio,
        'inside': lambda o: pts(o, o.is_point_inside), 'simplify': lambda o: o.simplify(.1), 'path': lambda o: o.to_path(),
        'triangle': lambda o: [o.is_triangle, o.to_triangle()],
    }, [[(0, 0), (4, 0), (4, 1), (1, 3)], [(0, 0), (1, 3), (5, 3), (2, 2)], [(0, 0), (4, 4), (4, 0), (0, 3)], [(1, 1), (1, 4), (3, 1)],
        [(0, 0), (2, 0), (4, 0), (3, 3), (2, 1), (1, 3)]]),
    'Quadratic': (QuadraticBezier2D, {
        'length': lambda o: o.length, 'length at': lambda o: at(o, o.length_at_t), 't at': lambda o: o.t_at_length(o.length/3),
        'point': lambda o: at(o, o.point_at_t), 'split': lambda o: o.split_at_t(.25), 'trim': lambda o: o.split_at_two_t(.25, .75),
        'tangent': lambda o: at(o, o.tangent_at), 'tangents': lambda o: [o.tangent0, o.tangent1, o.normal0, o.normal1],
        'cut': lambda o: o.intersect_line(Line2D.from_two_points(V((0, 1)), V((3, 1)))), 'fat': lambda o: o.fat_line(),
        'closest': lambda o: o.closest_point(V((2.5, 1.25))), 'distance': lambda o: o.distance_to_point(V((1, 1))), 'cubic': lambda o: o.to_cubic(),
    }, [[(0, 0), (2, 4), (5, 1)], [(0, 0), (4, 0), (1, 0)]]),
    'Cubic': (CubicBezier2D, {
        'length': lambda o: o.length, 'length at': lambda o: at(o, o.length_at_t), 't at': lambda o: o.t_at_length(o.length/3),
        'point': lambda o: at(o, o.point_at_t), 'split': lambda o: o.split_at_t(.25), 'trim': lambda o: o.split_at_two_t(.25, .75),
        'tangent': lambda o: at(o, o.tangent_at), 'area': lambda o: o.area,
        'cut': lambda o: o.intersect_line(Line2D.from_two_points(V((0, 1)), V((3, 1)))), 'fat': lambda o: o.fat_line(),
        'closest': lambda o: o.closest_point(V((2.5, 1.25))), 'spline': lambda o: o.to_spline(),
        'quadratics': lambda o: o.adaptive_length_approximation(), 'q length': lambda o: o.q_length(),
    }, [[(0, 0), (1, 4), (4, 3), (5, -1)], [(0, 0), (4, 3), (0, 3), (4, 0)]]),
    'QSpline': (QuadraticUniformSpline2D, {'bezier': lambda o: o.to_bezier(), 'point': lambda o: at(o, o.point_at_t)}, [[(0, 0), (2, 4), (5, 1)]]),
    'CSpline': (CubicUniformSpline2D, {'bezier': lambda o: o.to_bezier(), 'point': lambda o: at(o, o.point_at_t)}, [[(0, 0), (1, 4), (4, 3), (5, -1)]]),
}
SPLINES = {
    'BSpline2': (2, False, [[(0, 0), (2, 4), (5, 1), (6, 3)]]),
    'BSpline3': (3, False, [[(0, 0), (1, 4), (4, 3), (5, -1), (7, 2)]]),
}
for _name, (_degree, _closed, _shapes) in SPLINES.items():
    def _make(*points, degree=_degree, closed=_closed):
        return BSpline2D(points, degree, closed)
    KINDS[_name] = (_make, {
        'knots': lambda o: list(o.knots), 'degree': lambda o: [o.degree, o.order, o.number_of_spans], 'uniform': lambda o: o.uniform,
        'point': lambda o: at(o, o.point_at_t, (0, .3, o.end_knot/2, o.end_knot)), 'bezier': lambda o: o.to_bezier(),
        'insert': lambda o: o.insert_knot(.5), 'form': lambda o: o.to_bezier_form(),
    }, _shapes)

NOT_ASKED = {('Rectangle', 'reverse'), ('Rectangle', 'array'), ('Rectangle', 'points'), ('Polyline', 'is_closed')}

def queries(kind):
    return {**{k: f for k, f in COMMON.items() if (kind, k) not in NOT_ASKED}, **KINDS[kind][1]}

def defining(o):
    return [(float(p.x), float(p.y)) for p in o.points]

_fresh = {}

def fresh(kind, points, q):
    """the answer of an object just built from these points"""
    key = (kind, tuple(points), q)
    if key not in _fresh:
        if len(_fresh) > 300000:
            _fresh.clear()
        _fresh[key] = ask(queries(kind)[q], KINDS[kind][0](*[V(p) for p in points]))
    return _fresh[key]

def mutations(kind, points):
    out = list(TRANSFORMS)
    if kind == 'Rectangle':
        out = [m for m in out if m not in ('rotate', 'shear', 'turn')] # the corners of a rectangle are parallel to the axes
    out += ['clone', 'clone then change', 'change then clone', 'transform a clone', 'transform clone and go', 'reverse']
    if kind in ('Segment', 'Triangle', 'Rectangle', 'Quadratic', 'Cubic', 'QSpline', 'CSpline'):
        out += ['set {}'.format(i) for i in range(len(points))]
    if kind == 'Polygon':
        out += ['recenter']
    return out

MOVED = {'Segment': (7, 5), 'Triangle': (-5, 4), 'Rectangle': (9, 8)}

class Live:

    """An object, the points it must have"""

    def __init__(self, kind, obj, points):
        self.kind, self.obj, self.points = kind, obj, points

    def verify(self, ctx, names, when):
        got = defining(self.obj)
        want = self.points if self.kind != 'Rectangle' else [self.points[0], self.points[1]]
        if self.kind == 'Rectangle':
            got = [(float(self.obj.p0.x), float(self.obj.p0.y)), (float(self.obj.p1.x), float(self.obj.p1.y))]
        ctx.check(same(got, [tuple(map(float, p)) for p in want]), '{}: points {}, expected {}', when, got, want)
        for q in names:
            a = ask(queries(self.kind)[q], self.obj)
            b = fresh(self.kind, got, q)
            ctx.check(same(a, b), '{}: {} answers {}, a new one {}', when, q, a, b)
        after = defining(self.obj) if self.kind != 'Rectangle' else [(float(self.obj.p0.x), float(self.obj.p0.y)), (float(self.obj.p1.x), float(self.obj.p1.y))]
        ctx.check(after == got, '{}: queries {} changed the points from {} to {}', when, names, got, after)

def mutate(live, m, others):
    o, kind, points = live.obj, live.kind, live.points
    if m in TRANSFORMS:
        f, g = TRANSFORMS[m]
        r = f(o, False)
        return Live(kind, o, [g(p) for p in points]) if r is o else Live(kind, r, None)
    if m == 'clone':
        others.append(live)
        return Live(kind, o.clone(), list(points))
    if m in ('clone then change', 'change then clone'):
        c = o.clone()
        f, g = TRANSFORMS['translate' if kind == 'Rectangle' else 'shear']
        moved = [g(p) for p in points]
        if m == 'clone then change':
            f(c, False)
            others.append(Live(kind, c, moved))
            return live
        f(o, False)
        others.append(Live(kind, c, points))
        return Live(kind, o, moved)
    if m in ('transform a clone', 'transform clone and go'):
        f, g = TRANSFORMS['scale']
        new = Live(kind, f(o, True), [g(p) for p in points])
        if m == 'transform a clone':
            others.append(new)
            return live
        others.append(live)
        return new
    if m == 'reverse':
        others.append(live)
        return Live(kind, o.reverse(), points[::-1])
    if m.startswith('set'):
        i = int(m[4:])
        p = MOVED.get(kind, (-4, 6))
        v = V(p)
        setattr(o, 'p{}'.format(i), v)
        v *= 2 # the object has its own points
        return Live(kind, o, points[:i] + [p] + points[i+1:])
    if m == 'recenter':
        if o.is_simple:
            b = barycenter(points)
            o.recenter()
            return Live(kind, o, [(p[0] - b[0], p[1] - b[1]) for p in points])
        o.recenter()
        return live
    raise KeyError(m)

def flat(points):
    (a, b, c) = points
    return (b[0] - a[0])*(c[1] - a[1]) == (b[1] - a[1])*(c[0] - a[0])

SLOW = ('Quadratic', 'Cubic')

def history_cases(tier):
    for kind, (_, _, shapes) in KINDS.items():
        qs = list(queries(kind))
        for s, shape in enumerate(shapes):
            ms = mutations(kind, shape)
            quick = tier == 'quick'
            few = ms if not quick or kind not in SLOW else ['rotate', 'scale', 'clone then change', 'set 1']
            # one query, a change, a query, a change
            for q in ['-', '*'] + qs:
                for m1 in few if q not in '-*' else ms:
                    for m2 in ['-'] + (few[:6] if quick and q not in '-*' else few):
                        for q2 in ('-', '*') if quick and q in '-*' else ('-',) if quick else ['-', '*'] + qs:
                            yield [kind, s, [q, m1, q2, m2]]
            # the order of two queries
            for q, q2 in itertools.permutations(qs, 2):
                yield [kind, s, [q, q2, 'scale'] if kind != 'Triangle' and not (quick and kind in SLOW) else [q, q2]]
            for ms3 in itertools.product(ms if tier != 'quick' else few[:4], repeat=3):
                yield [kind, s, ['*', ms3[0], '*', ms3[1], '*', ms3[2], '*']]

def run_history(case, ctx):
    kind, s, ops = case
    points = [tuple(p) for p in KINDS[kind][2][s]]
    given = [V(p) for p in points]
    live = Live(kind, KINDS[kind][0](*given), points)
    given[0] += V((1, 1)) # the object has its own points
    others = []
    qs = queries(kind)
    done = []
    for op in ops:
        done.append(op)
        ctx.step()
        if op == '-':
            continue
        if op == '*':
            live.verify(ctx, list(qs), done)
        elif op in qs and op != 'clone' or (op == 'clone' and len(done) % 2 == 1 and len(ops) == 4):
            live.verify(ctx, [op], done)
        else:
            live = mutate(live, op, others)
            ctx.check(live.points is not None, '{}: another object was transformed', done)
            if kind == 'Triangle' and flat(live.points):
                return
    for o in [live] + others:
        o.verify(ctx, list(qs), done)
        ctx.state([kind, o.points])
    ctx.outcome([kind, live.points])

# objects with other parameters than points: circles, ellipses and their arcs

def conic(kind, c, d):
    dom = None if d is None else AngularDomain(*d)
    if kind == 'Circle':
        return Circle2D(V(c[:2]), c[2], domain=dom)
    return Ellipse2D(V(c[:2]), c[2], c[3], c[4], domain=dom)

CONIC_Q = {
    'center': lambda o: o.center, 'domain': lambda o: o, 'box': lambda o: o.bounding_box, 'points': lambda o: at(o, o.point_at_angle, (0, 30, 200)),
    'eccentricity': lambda o: o.eccentricity, 'inside': lambda o: pts(o, o.is_point_inside), 'distance': lambda o: pts(o, o.distance_to_point),
    'clone': lambda o: o.clone(), 'ends': lambda o: [o.start_point, o.stop_point], 'is closed': lambda o: o.is_closed,
}
CIRCLE_Q = {
    'radius': lambda o: [o.radius, o.diameter], 'perimeter': lambda o: o.perimeter, 'area': lambda o: o.area, 'tangent': lambda o: o.tangent_at_angle(30),
    'bezier': lambda o: o.bezier_approximation(), 'line': lambda o: o.intersect_line(Line2D.from_two_points(V((0, 1)), V((3, 2)))),
}
ELLIPSE_Q = {
    'radii': lambda o: [o.radius_x, o.radius_y, o.angle], 'axes': lambda o: [o.major_vector, o.minor_vector], 'matrix': lambda o: o.matrix(),
    'bezier': lambda o: o.to_bezier(), 'frame': lambda o: pts(o, o.point_in_ellipse_frame),
}
CONIC_M = ['center', 'radius', 'radius_y', 'angle', 'start', 'stop', 'domain', 'no domain', 'clone', 'clone then change', 'change then clone']

def conic_cases(tier):
    for kind in ('Circle', 'Ellipse'):
        qs = list(CONIC_Q) + list(CIRCLE_Q if kind == 'Circle' else ELLIPSE_Q)
        for d in (None, [30, 200], [200, -30]):
            for q in ['-', '*'] + qs:
                for m1 in CONIC_M:
                    for m2 in ['-'] + CONIC_M:
                        for q2 in ('-', '*', q) if tier != 'quick' else ('*',) if q == '-' else ('-',):
                            yield [kind, d, [q, m1, q2, m2]]

def run_conic(case, ctx):
    kind, d, ops = case
    qs = {**CONIC_Q, **(CIRCLE_Q if kind == 'Circle' else ELLIPSE_Q)}
    params = [1, 2, 2] if kind == 'Circle' else [1, 2, 3, 1, 30]
    live = [conic(kind, params, d), list(params), d]
    others = []

    def verify(x, names, when):
        new = conic(kind, x[1], x[2])
        for n in names:
            a, b = ask(qs[n], x[0]), ask(qs[n], new)
            ctx.check(same(a, b), '{}: {} answers {}, a new one {}', when, n, a, b)

    def change(x, m):
        o = x[0]
        if m == 'center':
            v = V((5, -1))
            o.center = v
            v += V((1, 1))
            x[1][:2] = 5, -1
        elif m == 'radius':
            if kind == 'Circle':
                o.radius = 7
            else:
                o.radius_x = 7
            x[1][2] = 7
        elif m == 'radius_y' and kind == 'Ellipse':
            o.radius_y = 4
            x[1][3] = 4
        elif m == 'angle' and kind == 'Ellipse':
            o.angle = -45
            x[1][4] = -45
        elif m == 'start' and x[2] is not None:
            o.domain.start = 60
            x[2] = [60, x[2][1]]
        elif m == 'stop' and x[2] is not None:
            o.domain.stop = 100
            x[2] = [x[2][0], 100]
        elif m == 'domain':
            o.domain = AngularDomain(10, 120)
            x[2] = [10, 120]
        elif m == 'no domain':
            o.domain = None
            x[2] = None

    done = []
    for op in ops:
        done.append(op)
        ctx.step()
        if op == '*':
            verify(live, list(qs), done)
        elif len(done) % 2 and op in qs:
            verify(live, [op], done)
        elif op == 'clone':
            others.append(live)
            live = [live[0].clone(), list(live[1]), live[2]]
        elif op == 'clone then change':
            c = [live[0].clone(), list(live[1]), live[2]]
            for m in ('center', 'radius', 'angle', 'start'):
                change(c, m)
            others.append(c)
        elif op == 'change then clone':
            c = [live[0].clone(), list(live[1]), live[2]]
            for m in ('center', 'radius', 'radius_y', 'stop'):
                change(live, m)
            others.append(c)
        elif op != '-':
            change(live, op)
    for x in [live] + others:
        verify(x, list(qs), done)
        ctx.state([kind, x[1:]])

# paths: parts added, points moved, transformations and clones between queries

PATHS = [
    [['l', (4, 0), 0, None], ['l', (0, 3), 0, 1.], ['l', (-2, 1), 0, None]],
    [['l', (4, 1), 1, None], ['c', ((1, 1), (2, 1), (3, -1)), 0, None], ['q', ((6, 5), (2, 6)), 1, None]],
    [['q', ((1, 2), (3, 0)), 0, None], ['t', (3, 1), 0, None], ['s', ((7, 4), (9, 1)), 1, None]],
    [['h', 4, 0, None], ['v', 3, 0, 1.], ['l', (2, 7), 1, .5]],
]
PATH_Q = {
    'geometry': lambda o: o, 'box': lambda o: o.bounding_box, 'ends': lambda o: [(p.start_point, p.stop_point) for p in o],
    'bulges': lambda o: [p.bulge_geometry for p in o if getattr(p, 'radius', None) is not None], 'size': lambda o: len(o), 'closed': lambda o: o.is_closed,
    'clone': lambda o: o.clone(),
}
PATH_T = {'rotate': ((0, -1, 1, 0), (0, 0)), 'parity': ((-1, 0, 0, -1), (0, 0)), 'translate': ((1, 0, 0, 1), (3, -2)), 'xmirror': ((-1, 0, 0, 1), (0, 0))}
PATH_M = list(PATH_T) + ['p0', 'line', 'curve', 'close', 'first', 'clone', 'clone then change', 'change then clone', 'transform a clone', 'radius']

def build_path(model):
    from mc.checks.C20_path import apply_command
    p = Path2D(V(model['p0']))
    for c in model['cmds']:
        apply_command(p, c)
    if model['closed']:
        p.close(*model['closed'])
    return p

def lin(m, p):
    return (m[0]*p[0] + m[1]*p[1], m[2]*p[0] + m[3]*p[1])

def transformed(model, t):
    m, d = PATH_T[t]
    aff = lambda p: tuple(a + b for a, b in zip(lin(m, p), d))
    cmds = []
    at = model['p0']
    for name, args, ab, r in model['cmds']: # the parts of a transformed path are absolute
        if name in 'hv':
            name, args = 'l', (args, 0) if name == 'h' else (0, args)
        ps = [args] if not isinstance(args[0], tuple) else list(args)
        if not ab:
            ps = [(p[0] + at[0], p[1] + at[1]) for p in ps]
        at = ps[-1]
        ps = [aff(p) for p in ps]
        cmds.append([name, ps[0] if name in 'lt' else tuple(ps), 1, r])
    return {'p0': aff(model['p0']), 'cmds': cmds, 'closed': model['closed']}

def path_transform(o, t, clone):
    return {'rotate': o.rotate, 'parity': lambda a, c: o.mirror(c), 'translate': lambda a, c: o.transform(A, c),
            'xmirror': lambda a, c: o.x_mirror(c)}[t](90, clone)

def path_cases(tier):
    for s in range(len(PATHS)):
        for q in ['-', '*'] + list(PATH_Q):
            for m1 in PATH_M:
                for q2 in ['-', '*'] + list(PATH_Q) if tier != 'quick' else ['*'] if q == '-' else ['-']:
                    for m2 in ['-'] + PATH_M:
                        yield [s, [q, m1, q2, m2]]
        for ms in itertools.product(PATH_M, repeat=3):
            yield [s, ['*', ms[0], '*', ms[1], '*', ms[2]]]

def run_path(case, ctx):
    from mc.checks.C20_path import apply_command
    s, ops = case
    tup = lambda a: a if not isinstance(a, (list, tuple)) else tuple(tup(x) for x in a)
    model = {'p0': (1, 1), 'cmds': [[c[0], tup(c[1]), c[2], c[3]] for c in PATHS[s]], 'closed': None}
    copy = lambda m: {'p0': m['p0'], 'cmds': [list(c) for c in m['cmds']], 'closed': m['closed']}
    live = [build_path(model), model]
    others = []

    def verify(x, names, when):
        new = build_path(x[1])
        for n in names:
            a, b = ask(PATH_Q[n], x[0]), ask(PATH_Q[n], new)
            ctx.check(same(a, b), '{}: {} answers {}, a new one {}', when, n, a, b)

    def change(x, m):
        o, model = x
        if m in PATH_T:
            ctx.check(path_transform(o, m, False) is o, 'another path was transformed')
            x[1] = transformed(model, m)
            return
        if m == 'p0':
            o.p0 = V((-3, 2))
            model['p0'] = (-3, 2)
        elif m in ('line', 'curve'):
            c = ['l', (2, -3), 0, None] if m == 'line' else ['c', ((8, 8), (9, 6), (10, 9)), 1, None]
            apply_command(o, c)
            if not model['closed']:
                model['cmds'].append(c)
        elif m == 'close':
            if not model['closed']:
                o.close()
                model['closed'] = (None, None)
        elif m == 'first':
            c = model['cmds'][0]
            if c[0] == 'l':
                o[0].point = V((5, -1))
                c[1] = (5, -1)
        elif m == 'radius':
            c = model['cmds'][1]
            if c[3] is not None:
                o[1].radius = .75
                c[3] = .75

    done = []
    for op in ops:
        done.append(op)
        ctx.step()
        if op == '*':
            verify(live, list(PATH_Q), done)
        elif len(done) % 2 and op in PATH_Q:
            verify(live, [op], done)
        elif op == 'clone':
            others.append(live)
            live = [live[0].clone(), copy(live[1])]
        elif op == 'clone then change':
            c = [live[0].clone(), copy(live[1])]
            for m in ('p0', 'line', 'first', 'rotate', 'radius'):
                change(c, m)
            others.append(c)
        elif op == 'change then clone':
            c = [live[0].clone(), copy(live[1])]
            for m in ('curve', 'first', 'translate', 'close'):
                change(live, m)
            others.append(c)
        elif op == 'transform a clone':
            others.append([path_transform(live[0], 'parity', True), transformed(live[1], 'parity')])
        elif op != '-':
            change(live, op)
    for x in [live] + others:
        verify(x, list(PATH_Q), done)
        ctx.state([s, x[1]])

# vectors and lines: coordinates changed in place

OTHER = [(3, 4), (-1, 2), (0, -5)]

def others_(o, name):
    return [getattr(o, name)(V(p)) for p in OTHER]

VECTOR_Q = {
    'coordinates': lambda o: [o.x, o.y, o[0], o[1], list(o), o.v], 'magnitude': lambda o: [o.magnitude, o.magnitude_square], 'orientation': lambda o: o.orientation,
    'turned': lambda o: [o.normal, o.anti_normal, o.permute, o.parity, -o, +o, abs(o), o.rotate(30)], 'slopes': lambda o: [o.tan, o.inverse_tan],
    'products': lambda o: [others_(o, n) for n in ('dot', 'cross')], 'box': lambda o: o.bounding_box,
    'relations': lambda o: [others_(o, n) for n in ('is_parallel', 'is_orthogonal')],
    'angles': lambda o: [others_(o, n) for n in ('cos_with', 'sin_with', 'angle_with')],
    'deviations': lambda o: [others_(o, n) for n in ('projection_on', 'deviation_with')],
    'sums': lambda o: [o + V((3, 4)), o - V((3, 4)), o*2, 2*o, o/2], 'bool': lambda o: bool(o), 'clone': lambda o: o.clone(),
    'normalised': lambda o: o.to_normalised(), 'equal': lambda o: [o == V(p) for p in OTHER], 'scaled': lambda o: [o.scale(2, 3), o.divide(2, 4), o.rint(), o.to_int_list()],
    'polar': lambda o: o.almost_equal(V((3, 4)), .5) if hasattr(o, 'almost_equal') else None,
}

def _set(name, value):
    return lambda o: setattr(o, name, value)

def _iop(f):
    def g(o):
        r = f(o)
        assert r is o
    return g

VECTOR_M = {
    'x': (_set('x', 5.), lambda p: (5., p[1])), 'y': (_set('y', -2.), lambda p: (p[0], -2.)), 'item': (lambda o: o.__setitem__(0, -4.), lambda p: (-4., p[1])),
    'add': (lambda o: o.__iadd__(V((1, 2))), lambda p: (p[0] + 1, p[1] + 2)), 'sub': (lambda o: o.__isub__(V((0, 3))), lambda p: (p[0], p[1] - 3)),
    'mul': (lambda o: o.__imul__(-2.), lambda p: (-2*p[0], -2*p[1])), 'div': (lambda o: o.__itruediv__(4.), lambda p: (p[0]/4, p[1]/4)),
    'normalise': (lambda o: o.normalise(), lambda p: tuple(x/math.hypot(*p) for x in p)),
}
LINE_Q = {
    'line': lambda o: [o.p, o.v], 'vn': lambda o: o.vn, 'points': lambda o: [o.interpolate(s) for s in (-1, 0, .5)] + [o.point_at_distance(2), o.point_at_distance(1, V((1, 1)))],
    'distances': lambda o: [o.compute_distance_between_abscissae(0, 2), o.distance_to_line(V((3, 4))), o.distance_and_abscissa_to_line(V((3, 4)))],
    'coordinates': lambda o: [o.get_y_from_x(2), o.get_x_from_y(-1)], 'projection': lambda o: [o.projected_abscissa(V((3, 4))), o.projected_point(V((3, 4)))],
    'parallels': lambda o: [o.parallel_line_at(V((1, 5))), o.shifted_parallel_line(2)], 'orthogonals': lambda o: [o.orthogonal_line_at(V((1, 5))), o.orthogonal_line_at_abscissa(.5)],
    'relations': lambda o: [f(Line2D(V((0, 1)), V(p))) for f in (o.is_parallel, o.is_orthogonal, o.intersection) for p in OTHER], 'clone': lambda o: o.clone(),
    'box': lambda o: o.get_x_y_from_bounding_box(V((0, 0)).bounding_box | V((6, 7)).bounding_box), 'meet': lambda o: Line2D.intersection_abscissae(o, Line2D(V((0, 1)), V((1, 3)))),
}

def _on(part, m):
    f, g = VECTOR_M[m]
    def change(o):
        f(getattr(o, part))
    if part == 'p':
        return change, lambda c: tuple(g(c[:2])) + tuple(c[2:])
    return change, lambda c: tuple(c[:2]) + tuple(g(c[2:]))

LINE_M = {'p ' + m: _on('p', m) for m in ('x', 'add', 'mul')}
LINE_M.update({'v ' + m: _on('v', m) for m in ('y', 'sub', 'mul', 'normalise')})
LINE_M['p'] = (lambda o: setattr(o, 'p', V((6, -1))), lambda c: (6, -1) + tuple(c[2:]))
LINE_M['v'] = (lambda o: setattr(o, 'v', V((-1, 3))), lambda c: tuple(c[:2]) + (-1, 3))

def _line(c):
    return Line2D(V(c[:2]), V(c[2:]))

VALUES = {
    'Vector': (V, VECTOR_Q, VECTOR_M, [(3, 4), (-1, .5), (0, 2)], lambda o: (float(o.x), float(o.y))),
    'Line': (_line, LINE_Q, LINE_M, [(1, 2, 3, 1), (0, 0, -1, 2)], lambda o: (float(o.p.x), float(o.p.y), float(o.v.x), float(o.v.y))),
}
# the objects derived from the one under test, which must be independent of it
DERIVED = {
    'Vector': {'clone': lambda o: o.clone(), 'plus': lambda o: +o, 'times': lambda o: o*1., 'absolute': lambda o: abs(o)},
    'Line': {'clone': lambda o: o.clone(), 'parallel': lambda o: o.parallel_line_at(o.p), 'parallel at its origin': lambda o: o.shifted_parallel_line(0),
             'orthogonal': lambda o: o.orthogonal_line_at(o.p), 'rebuilt': lambda o: Line2D(o.p, o.v)},
}

def value_cases(tier):
    for kind, (_, qs, ms, shapes, _) in VALUES.items():
        copies = ['clone ' + d for d in DERIVED[kind]] + ['go ' + d for d in DERIVED[kind]]
        for s in range(len(shapes)):
            for q in ['-', '*'] + list(qs):
                for m1 in list(ms) + copies:
                    for q2 in ('-', '*'):
                        for m2 in ['-'] + list(ms) + (copies if tier != 'quick' or q in '-*' else []):
                            yield [kind, s, [q, m1, q2, m2]]
            for m3 in itertools.product(list(ms) + copies, repeat=3):
                if tier != 'quick' or s == 0:
                    yield [kind, s, ['*', m3[0], '*', m3[1], '*', m3[2]]]

def run_value(case, ctx):
    kind, s, ops = case
    make, qs, ms, shapes, coords = VALUES[kind]
    live = [make(shapes[s]), tuple(map(float, shapes[s]))]
    others = []
    def verify(x, names, when):
        got = coords(x[0])
        ctx.check(same(list(got), list(x[1])), '{}: coordinates {}, expected {}', when, got, x[1])
        new = make(got)
        for n in names:
            a, b = ask(qs[n], x[0]), ask(qs[n], new)
            ctx.check(same(a, b), '{}: {} answers {}, a new one {}', when, n, a, b)
        ctx.check(coords(x[0]) == got, '{}: queries {} changed the coordinates from {} to {}', when, names, got, coords(x[0]))
    done = []
    for op in ops:
        done.append(op)
        ctx.step()
        if op == '-':
            continue
        if op == '*':
            verify(live, list(qs), done)
        elif len(done) % 2 and op in qs:
            verify(live, [op], done)
        elif op[:5] == 'clone' or op[:2] == 'go':
            how, d = op.split(' ', 1)
            c = DERIVED[kind][d](live[0])
            x = [c, coords(c)]
            if how == 'go':
                others.append(live)
                live = x
            else:
                others.append(x)
        else:
            f, g = ms[op]
            if kind == 'Vector' and op == 'normalise' or op == 'v normalise':
                if not any(live[1][-2:]):
                    continue
            f(live[0])
            live[1] = tuple(map(float, g(live[1])))
    for x in [live] + others:
        verify(x, list(qs), done)
        ctx.state([kind, x[1]])

def spaces(tier):
    return [
        Space('points', lambda: history_cases(tier), run_history, 'query, change, query, change histories of the primitives defined by points'),
        Space('conics', lambda: conic_cases(tier), run_conic, 'the same for circles, ellipses and arcs'),
        Space('values', lambda: value_cases(tier), run_value, 'the same for vectors and lines changed in place, and what is derived from them'),
        Space('paths', lambda: path_cases(tier), run_path, 'the same for paths, with parts added'),
    ]
