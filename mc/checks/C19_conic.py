"""C19: circles, ellipses and their arcs against their equations."""
import itertools, math, logging
from fractions import Fraction as F
import numpy as np
from mc import exact as X
from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D
from Patro.GeometryEngine.Mixin import AngularDomain
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Transformation import Transformation2D, AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D
from mc import scale

PROPERTY = 'C19'
ASSUMPTIONS = ['centres, radii and query points are small integers or halves, domains are multiples of 30 or 45 degrees (and some odd ones)',
               'a domain that stops before it starts goes counter-clockwise through 360 degrees, except for SVG arcs and their Bezier approximation, which follow the signed span',
               'tangency is decided where the arithmetic of the oracle and of the implementation is exact (integer distances)',
               'the distance to an ellipse is compared with a dense refined sampling, tolerance 1e-5; Bezier arcs stay within 4e-4 of the ellipse of radii up to 1 (relative)']

logging.disable(logging.CRITICAL)

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def rad(a):
    return a*math.pi/180

def polar(c, r, a):
    return (c[0] + r*math.cos(rad(a)), c[1] + r*math.sin(rad(a)))

def dist(p, q):
    return math.hypot(p[0]-q[0], p[1]-q[1])

def domain(d):
    return AngularDomain(d[0], d[1]) if d else None

def span_of(d):
    """(start, counter-clockwise span in degrees)"""
    if d is None or abs(d[1]-d[0]) >= 360:
        return (0 if d is None else d[0], 360)
    s = d[1] - d[0]
    return (d[0], s if s >= 0 else s + 360)

def in_domain(d, a, margin=0.):
    """1 inside, -1 outside, 0 within margin of an end"""
    start, span = span_of(d)
    if span >= 360:
        return 1
    x = (a - start) % 360
    for e in (0, span, 360):
        if abs(x - e) <= margin:
            return 0
    return 1 if x < span else -1

DOMAINS = [None, [0, 90], [0, 180], [30, 60], [30, 300], [90, 270], [-45, 45], [300, 30], [270, 90], [350, 10], [0, 270],
           [45, 45], [0, 360], [180, 181], [-90, 0], [200, 100], [400, 430]]

def extent(points):
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    return min(xs), max(xs), min(ys), max(ys)

def box(ctx, got, points, msg, tol=1e-7):
    want = extent(points)
    for g, w in zip((got.x.inf, got.x.sup, got.y.inf, got.y.sup), want):
        ctx.check(abs(float(g) - w) <= tol*max(1, abs(w)), '{}: got {}, expected {}', msg, got, want)

def domains(case, ctx):
    d = case
    ctx.state(case)
    o = AngularDomain(d[0], d[1])
    start, span = span_of(d)
    ctx.close(o.length, rad(span), 'length')
    ctx.close(o.start, d[0], 'start'); ctx.close(o.stop, d[1], 'stop')
    ctx.close(o.start_radians, rad(d[0]), 'start'); ctx.close(o.stop_radians, rad(d[1]), 'stop')
    ctx.close(o.span, abs(d[1]-d[0]), 'span')
    ctx.eq(o.is_closed, abs(d[1]-d[0]) >= 360, 'is_closed')
    ctx.eq(o.is_over_closed, abs(d[1]-d[0]) > 360, 'is_over_closed')
    ctx.eq(o.is_null, d[0] == d[1], 'is_null')
    ctx.eq(o.is_counterclockwise, d[0] <= d[1], 'is_counterclockwise')
    ctx.eq(o.is_clockwise, d[0] > d[1], 'is_clockwise')
    for a in range(-360, 721, 15):
        x = (a - start) % 360
        want = span >= 360 or x <= span
        ctx.eq(bool(o.is_inside(a)), want, 'is_inside({})'.format(a))
    c = o.clone()
    ctx.check(c is not o and (c.start, c.stop) == (o.start, o.stop), 'clone')
    c.start = 7; c.stop = 8
    ctx.check((o.start, o.stop) == (d[0], d[1]), 'the clone shares its state')

def circle(case, ctx):
    c, r, d = case
    c = tuple(c)
    ctx.state(case)
    o = Circle2D(V(c), r, domain(d))
    start, span = span_of(d)
    ctx.vec(o.center, c, 'center'); ctx.close(o.radius, r, 'radius'); ctx.close(o.diameter, 2*r, 'diameter')
    ctx.eq(o.is_closed, d is None, 'is_closed')
    ctx.close(o.perimeter, r*rad(span), 'perimeter')
    ctx.eq(o.eccentricity, 0, 'eccentricity')
    if d is None:
        ctx.close(o.area, math.pi*r*r, 'area')
        ctx.check(o.start_point is None and o.stop_point is None, 'a closed circle has no ends')
    else:
        ctx.vec(o.start_point, polar(c, r, d[0]), 'start point'); ctx.vec(o.stop_point, polar(c, r, d[1]), 'stop point')
    for a in range(-90, 450, 15):
        p = polar(c, r, a)
        ctx.vec(o.point_at_angle(a), p, 'point at angle')
        line = o.tangent_at_angle(a)
        ctx.vec(line.p, p, 'point of the tangent')
        u = xy(line.v)
        ctx.vec(line.v.to_normalised(), (-math.sin(rad(a)), math.cos(rad(a))), 'direction of the tangent')
        ctx.vec(o.point_at_distance(rad(a)*r), p, 'point at distance')
        x = o.angle_for_point(V((p[0]*2-c[0], p[1]*2-c[1])))
        ctx.check(abs((x - a + 180) % 360 - 180) < 1e-6 and 0 <= x <= 360.0001, 'angle of a point: got {}, expected {}', x, a)
    sides = [polar(c, r, a) for a in (0, 90, 180, 270) if in_domain(d, a, 1e-9) == 1]
    if d is not None:
        sides += [polar(c, r, d[0]), polar(c, r, d[1])]
    box(ctx, o.bounding_box, sides, 'bounding box')
    ends = [polar(c, r, d[0]), polar(c, r, d[1])] if d else []
    for q in itertools.product(np.arange(-4, 4.5, .5), repeat=2):
        q = (float(q[0]), float(q[1]))
        D = dist(q, c)
        ctx.eq(bool(o.is_point_inside(V(q))), (F(q[0])-c[0])**2 + (F(q[1])-c[1])**2 <= F(r)**2, 'is_point_inside({})'.format(q))
        ctx.close(o.signed_distance_to_point(V(q)), D - r, 'signed distance')
        want = abs(D - r)
        if D == 0 and span < 360:
            pass
        elif in_domain(d, math.degrees(math.atan2(q[1]-c[1], q[0]-c[0]))) < 0:
            want = min(dist(q, e) for e in ends)
        ctx.close(o.distance_to_point(V(q)), want, 'distance to {}'.format(q))
    e = o.clone()
    ctx.check(type(e) is Circle2D and xy(e.center) == c and e.radius == r and
              ((e.domain is None) if d is None else (e.domain.start, e.domain.stop) == tuple(d)), 'clone')
    e.center = V((9, 9)); e.radius = 11
    if d:
        e.domain.start = 77
    ctx.check(xy(o.center) == c and o.radius == r and (d is None or o.domain.start == d[0]), 'the clone shares its state')

def circle_ctor(case, ctx):
    c, r, a, k = case
    ctx.state(case)
    o = Circle2D(V(c), 2*r, diameter=True)
    ctx.close(o.radius, r, 'radius from the diameter')
    d = k*r
    o = Circle2D(V(c), r, start_angle=a, distance=d)
    if d > 2*math.pi*r:
        ctx.check(o.is_closed, 'an arc longer than the circle is closed')
    else:
        ctx.check(o.domain is not None, 'arc from a distance')
        ctx.close(o.domain.start, a, 'start'); ctx.close(o.domain.stop, a + math.degrees(d/r), 'stop')
        ctx.close(o.perimeter, d, 'perimeter of the arc')
    o = Circle2D(V(c), 2*r, diameter=True, start_angle=a, distance=d)
    if d <= 2*math.pi*r:
        ctx.check(o.domain is not None, 'arc from a distance and a diameter')
        ctx.close(o.perimeter, d, 'perimeter of the arc')
    p = polar(c, r, a)
    o = Circle2D.from_two_points(V(c), V(p))
    ctx.vec(o.center, c, 'from two points'); ctx.close(o.radius, r, 'from two points')

def want_set(ctx, got, want, msg):
    ctx.check(isinstance(got, (tuple, list)), '{}: not a sequence {!r}', msg, got)
    got = [xy(p) for p in got]
    ctx.check(len(got) == len(want), '{}: got {}, expected {}', msg, got, want)
    left = list(want)
    for g in got:
        m = [w for w in left if dist(g, w) < 1e-6]
        ctx.check(m, '{}: got {}, expected {}', msg, got, want)
        left.remove(m[0])

def line_circle(c, r, p, u):
    """exact: abscissae count, float points"""
    dx, dy = u
    wx, wy = p[0]-c[0], p[1]-c[1]
    A = dx*dx + dy*dy; B = wx*dx + wy*dy; C = wx*wx + wy*wy - r*r
    disc = B*B - A*C
    if disc < 0:
        return []
    if disc == 0:
        ts = [F(-B)/A]
    else:
        s = math.sqrt(disc)
        ts = [(-B - s)/A, (-B + s)/A]
    return [(t, (float(p[0] + t*dx), float(p[1] + t*dy))) for t in ts]

def intersect_line(case, ctx):
    c, r, p, q = case
    ctx.state(case)
    o = Circle2D(V(c), r)
    u = (q[0]-p[0], q[1]-p[1])
    if u != (0, 0):
        want = line_circle(c, r, p, u)
        for k in (1, -1, 2):
            line = Line2D(V(p), V((u[0]*k, u[1]*k)))
            want_set(ctx, o.intersect_line(line), [w for _, w in want], 'line')
        seg = [w for t, w in want if -1e-12 <= t <= 1 + 1e-12]
        ctx.outcome((len(want), len(seg)))
    else:
        seg = [tuple(map(float, p))] if dist(p, c) == r else []
    want_set(ctx, o.intersect_segment(Segment2D(V(p), V(q))), seg, 'segment')
    want_set(ctx, o.intersect_segment(Segment2D(V(q), V(p))), seg, 'reversed segment')

def intersect_circle(case, ctx):
    c1, r1, c2, r2 = case
    ctx.state(case)
    a, b = Circle2D(V(c1), r1), Circle2D(V(c2), r2)
    d2 = (c1[0]-c2[0])**2 + (c1[1]-c2[1])**2
    d = math.isqrt(d2)
    tangent = d2 and d*d == d2 and (d == r1 + r2 or d == abs(r1 - r2))
    if d2 == 0 or d2 > (r1+r2)**2 or d2 < (r1-r2)**2:
        n = 0
    else:
        n = 1 if tangent else 2
    ctx.outcome(n)
    for x, y in ((a, b), (b, a)):
        pts = x.intersect_circle(y)
        ctx.check(isinstance(pts, (tuple, list)) and len(pts) == n, '{} intersections: got {}', n, pts)
        for p in pts:
            p = xy(p)
            ctx.check(abs(dist(p, c1) - r1) < 1e-6 and abs(dist(p, c2) - r2) < 1e-6, '{} is not on both circles', p)
        if n == 2:
            ctx.check(dist(xy(pts[0]), xy(pts[1])) > 1e-3, 'the same intersection twice')
    ctx.check(xy(a.center) == tuple(c1) and xy(b.center) == tuple(c2) and (a.radius, b.radius) == (r1, r2), 'a query modified a circle')

# ellipse

def ell(c, rx, ry, phi, a):
    x, y = rx*math.cos(rad(a)), ry*math.sin(rad(a))
    k, s = math.cos(rad(phi)), math.sin(rad(phi))
    return (c[0] + k*x - s*y, c[1] + s*x + k*y)

def frame(c, phi, p):
    x, y = p[0]-c[0], p[1]-c[1]
    k, s = math.cos(rad(phi)), math.sin(rad(phi))
    return (k*x + s*y, -s*x + k*y)

T0 = np.linspace(0, 2*math.pi, 721)

def ellipse_distance(rx, ry, q):
    t = T0
    h = t[1]-t[0]
    for _ in range(4):
        d = np.hypot(rx*np.cos(t) - q[0], ry*np.sin(t) - q[1])
        i = int(np.argmin(d))
        best = float(d[i]); t = np.linspace(t[i]-1.5*h, t[i]+1.5*h, 101); h = t[1]-t[0]
    return best

QS = [(x/2, y/2) for x in range(-7, 8, 2) for y in range(-7, 8, 2)] + [(x, y) for x in (-3, -1, 0, 1, 3) for y in (-3, -2, 0, 1)]

def ellipse(case, ctx):
    c, rx, ry, phi, d = case
    ctx.state(case)
    o = Ellipse2D(V(c), rx, ry, phi, domain(d))
    ctx.vec(o.center, c, 'center')
    ctx.check((o.radius_x, o.radius_y, o.angle) == (rx, ry, phi), 'radii, angle')
    E = lambda a: ell(c, rx, ry, phi, a)
    M = np.array(o.matrix(), dtype=float)
    ctx.check(M.shape == (3, 3) and np.allclose(M, M.T), 'matrix')
    for a in range(-90, 450, 15):
        p = E(a)
        ctx.vec(o.point_at_angle(a), p, 'point at angle {}'.format(a))
        h = np.array([p[0], p[1], 1])
        ctx.check(abs(h @ M @ h) < 1e-6*max(1, abs(M).max()), 'the matrix does not vanish on the ellipse: {}', h @ M @ h)
    h = np.array([c[0], c[1], 1])
    ctx.check(abs(h @ M @ h) > 1e-6, 'the matrix vanishes on the centre')
    ctx.close(o.eccentricity, math.sqrt(1 - (min(rx, ry)/max(rx, ry))**2), 'eccentricity')
    a, b = o.major_vector, o.minor_vector
    for v, r, al in ((a, rx, phi), (b, ry, phi + 90)):
        ctx.vec(v, (r*math.cos(rad(al)), r*math.sin(rad(al))), 'half axis')
    if d is None:
        pts = [E(a/8) for a in range(2880)]
    else:
        start, span = span_of(d)
        pts = [E(start + span*i/2880) for i in range(2881)]
        ctx.vec(o.start_point, E(d[0]), 'start point'); ctx.vec(o.stop_point, E(d[1]), 'stop point')
    box(ctx, o.bounding_box, pts, 'bounding box', 1e-4)
    box(ctx, o.bounding_box, pts, 'bounding box, again', 1e-4)
    if d is None:
        for q in QS:
            q = (q[0] + .015625, q[1] - .03125)
            f = frame(c, phi, q)
            ctx.vec(o.point_in_ellipse_frame(V(q)), f, 'point in the frame')
            ctx.vec(o.point_from_ellipse_frame(V(f)), q, 'point from the frame')
            v = (f[0]/rx)**2 + (f[1]/ry)**2 - 1
            if abs(v) > 1e-9:
                ctx.eq(bool(o.is_point_inside(V(q))), v < 0, 'is_point_inside({})'.format(q))
        for q in QS + [tuple(c)]:
            f = frame(c, phi, q)
            w = ellipse_distance(rx, ry, f)
            g = o.distance_to_point(V(q))
            ctx.check(abs(g - w) < 1e-5, 'distance to {}: got {}, expected {}', q, g, w)
            g, p = o.distance_to_point(V(q), return_point=True)
            p = xy(p)
            ctx.check(abs(g - w) < 1e-5 and abs(dist(p, q) - w) < 1e-5, 'closest point to {}: got {} at {}, expected distance {}', q, p, g, w)
            f = frame(c, phi, p)
            ctx.check(abs((f[0]/rx)**2 + (f[1]/ry)**2 - 1) < 1e-5, 'closest point {} is not on the ellipse', p)
    e = o.clone()
    ctx.check(type(e) is Ellipse2D and xy(e.center) == tuple(c) and (e.radius_x, e.radius_y, e.angle) == (rx, ry, phi) and
              ((e.domain is None) if d is None else (e.domain.start, e.domain.stop) == tuple(d)), 'clone')
    e.center = V((9, 9)); e.radius_x = 11; e.angle = 12
    if d:
        e.domain.start = 77
    ctx.check(xy(o.center) == tuple(c) and o.radius_x == rx and o.angle == phi and (d is None or o.domain.start == d[0]), 'the clone shares its state')

def ellipse_segment(case, ctx):
    c, rx, ry, phi, p, q = case
    ctx.state(case)
    o = Ellipse2D(V(c), rx, ry, phi)
    fp, fq = frame(c, phi, p), frame(c, phi, q)
    P = (fp[0]/rx, fp[1]/ry); Q = (fq[0]/rx, fq[1]/ry)
    u = (Q[0]-P[0], Q[1]-P[1])
    A = u[0]**2 + u[1]**2; B = P[0]*u[0] + P[1]*u[1]; C = P[0]**2 + P[1]**2 - 1
    disc = B*B - A*C
    if abs(disc) < 1e-9:
        return # tangent
    ts = [] if disc < 0 else [(-B-math.sqrt(disc))/A, (-B+math.sqrt(disc))/A]
    if any(abs(t) < 1e-5 or abs(t-1) < 1e-5 for t in ts):
        return # an end is on the ellipse
    want = [(p[0] + t*(q[0]-p[0]), p[1] + t*(q[1]-p[1])) for t in ts if 0 < t < 1]
    ctx.outcome(len(want))
    want_set(ctx, o.intersect_segment(Segment2D(V(p), V(q))), want, 'intersections')

def off_ellipse(c, rx, ry, phi, p):
    f = frame(c, phi, p)
    return math.hypot(f[0]/rx, f[1]/ry) - 1

def follow(ctx, curves, c, rx, ry, phi, start, span, msg):
    """curves trace the arc from start over the signed span"""
    E = lambda a: ell(c, rx, ry, phi, a)
    if span == 0:
        ctx.check(len(curves) == 0, msg + ': null arc')
        return
    ctx.check(len(curves) > 0, msg + ': no curve')
    ctx.vec(curves[0].p0, E(start), msg + ': start', 1e-6)
    ctx.vec(curves[-1].point_at_t(1), E(start + span), msg + ': stop', 1e-6)
    n = len(curves)
    last = None
    sweep = 0
    for k, b in enumerate(curves):
        if k:
            ctx.vec(b.p0, xy(curves[k-1].point_at_t(1)), msg + ': connected', 1e-6)
        for i in range(9):
            p = xy(b.point_at_t(i/8))
            ctx.check(abs(off_ellipse(c, rx, ry, phi, p)) < 4e-4, msg + ': {} is off the ellipse', p)
            f = frame(c, phi, p)
            a = math.degrees(math.atan2(f[1]/ry, f[0]/rx))
            if last is not None:
                sweep += (a - last + 180) % 360 - 180
            last = a
    ctx.check(abs(sweep - span) < .1, msg + ': it turns by {}, expected {}', sweep, span)

def to_bezier(case, ctx):
    c, rx, ry, phi, d = case
    ctx.state(case)
    o = Ellipse2D(V(c), rx, ry, phi, domain(d))
    start, span = (0, 360) if d is None else (d[0], d[1]-d[0])
    follow(ctx, list(o.to_bezier()), c, rx, ry, phi, start, span, 'to_bezier')

# SVG arc, https://www.w3.org/TR/SVG/implnote.html#ArcConversionEndpointToCenter

def svg_oracle(p, q, rx, ry, phi, large, sweep):
    """all the arcs of an ellipse with these radii through both points, selected by the flags"""
    rx, ry = abs(rx), abs(ry)
    k, s = math.cos(rad(phi)), math.sin(rad(phi))
    hx, hy = (p[0]-q[0])/2, (p[1]-q[1])/2
    x, y = k*hx + s*hy, -s*hx + k*hy
    lam = (x/rx)**2 + (y/ry)**2
    scaled = lam >= 1 - 1e-12
    if lam > 1:
        rx *= math.sqrt(lam); ry *= math.sqrt(lam)
    # unit circle frame: chord from (x/rx, y/ry) to its opposite, about the middle of the chord
    ux, uy = x/rx, y/ry
    l2 = ux*ux + uy*uy
    h = math.sqrt(max(0, 1 - l2))
    l = math.sqrt(l2)
    out = []
    for sg in (1, -1):
        cx, cy = -uy/l*h*sg, ux/l*h*sg
        a1 = math.degrees(math.atan2(uy-cy, ux-cx)); a2 = math.degrees(math.atan2(-uy-cy, -ux-cx))
        span = (a2-a1) % 360
        if not sweep:
            span -= 360
        if scaled or (abs(span) > 180) == bool(large):
            ex, ey = cx*rx, cy*ry
            C = ((p[0]+q[0])/2 + k*ex - s*ey, (p[1]+q[1])/2 + s*ex + k*ey)
            out.append((C, rx, ry, a1, span))
    return out, scaled

def svg_arc(case, ctx):
    p, q, rx, ry, phi, large, sweep = case
    ctx.state(case)
    o = Ellipse2D.svg_arc(V(p), V(q), rx, ry, phi, bool(large), bool(sweep))
    if rx == 0 or ry == 0:
        ctx.check(isinstance(o, Segment2D), 'an arc with a null radius is a segment')
        ctx.vec(o.p0, p, 'start'); ctx.vec(o.p1, q, 'end')
        return
    want, scaled = svg_oracle(p, q, rx, ry, phi, large, sweep)
    ctx.check(isinstance(o, Ellipse2D), 'ellipse')
    C, rx, ry, a, span = want[0]
    ctx.outcome((scaled, round(span)))
    tol = 1e-5 if scaled else 1e-7
    ctx.vec(o.center, C, 'centre', tol)
    ctx.close(o.radius_x, rx, 'x radius', tol); ctx.close(o.radius_y, ry, 'y radius', tol)
    ctx.close((o.angle - phi) % 180, 0, 'angle')
    ctx.vec(o.start_point, p, 'start point', tol); ctx.vec(o.stop_point, q, 'end point', tol)
    s = o.domain.stop - o.domain.start
    if scaled:
        ctx.check(abs(abs(s) - 180) < 1e-3, 'half of the scaled ellipse: {}', s)
        ctx.check((s > 0) == bool(sweep), 'sweep flag')
    else:
        ctx.check(abs(s - span) < 1e-6, 'signed span: got {}, expected {}', s, span)
    follow(ctx, list(o.to_bezier()), C, rx, ry, phi, o.domain.start, s, 'Bezier approximation')

# transformed conics

MOVES = {  # name: ((a, b, c, d, e, f) meaning x' = a x + b y + c, y' = d x + e y + f, how to build it)
    't': ((1, 0, 3, 0, 1, -2), lambda: AffineTransformation2D.Translation(V((3, -2)))),
    'r': ((0, -1, 0, 1, 0, 0), lambda: Transformation2D.Rotation(90)),
    'r30': ((math.sqrt(3)/2, -.5, 0, .5, math.sqrt(3)/2, 0), lambda: AffineTransformation2D.Rotation(30)),
    'ra': ((0, 1, -1, -1, 0, 3), lambda: AffineTransformation2D.RotationAt(V((1, 2)), -90)),
    's': ((2, 0, 0, 0, 2, 0), lambda: Transformation2D.Scale(2)),
    's/': ((.5, 0, 0, 0, .5, 0), lambda: AffineTransformation2D.Scale(.5, .5)),
    's-': ((-2, 0, 0, 0, -2, 0), lambda: Transformation2D.Scale(-2, -2)),
    'p': ((-1, 0, 0, 0, -1, 0), lambda: Transformation2D.Parity()),
    'x': ((-1, 0, 0, 0, 1, 0), lambda: Transformation2D.Scale(-1, 1)),
    'y': ((1, 0, 0, 0, -1, 0), lambda: Transformation2D.Scale(1, -1)),
    'sc': ((1, 0, 0, 0, -1, 7), lambda: AffineTransformation2D.Screen(7)),
    'm': ((0, 1, 0, 1, 0, 0), lambda: Transformation2D(np.array(((0, 1), (1, 0))))),
    'g': ((3, -4, 1, 4, 3, 0), lambda: AffineTransformation2D(np.array(((3, -4, 1), (4, 3, 0), (0, 0, 1))))),
}
SHEARS = [lambda: Transformation2D.Scale(2, 1), lambda: Transformation2D.Scale(-2, 1), lambda: Transformation2D(np.array(((1, 1), (0, 1)))),
          lambda: AffineTransformation2D(np.array(((1, 0, 5), (.5, 1, 0), (0, 0, 1)))), lambda: AffineTransformation2D.Scale(1, 3)]

def move(m, p):
    return (m[0]*p[0] + m[1]*p[1] + m[2], m[3]*p[0] + m[4]*p[1] + m[5])

def describe(o):
    r = (o.radius,) if isinstance(o, Circle2D) else (o.radius_x, o.radius_y, o.angle)
    return (xy(o.center), r, None if o.domain is None else (o.domain.start, o.domain.stop))

def transformed(case, ctx):
    kind, d, names, mode = case
    ctx.state(case)
    if kind == 'circle':
        c, rx, ry, phi = (1, -2), 2, 2, 0
        make = lambda: Circle2D(V(c), 2, domain(d))
    else:
        c, (rx, ry, phi) = (1, -2), kind
        make = lambda: Ellipse2D(V(c), rx, ry, phi, domain(d))
    def at(a):
        u = (rx*math.cos(rad(a)), ry*math.sin(rad(a)))
        return (c[0] + u[0]*math.cos(rad(phi)) - u[1]*math.sin(rad(phi)), c[1] + u[0]*math.sin(rad(phi)) + u[1]*math.cos(rad(phi)))
    def image(p):
        for n in names:
            p = move(MOVES[n][0], p)
        return p
    o = source = make()
    before = describe(source)
    source_domain = source.domain
    ts = [MOVES[n][1]() for n in names]
    if mode == 2: # one composed transformation
        t = AffineTransformation2D(np.identity(3))
        for x in ts:
            m = AffineTransformation2D(np.identity(3))
            k = x.array.shape[0]
            m.array[:k,:k] = x.array
            t = AffineTransformation2D(m.array) * t
        ts = [t]
    for i, t in enumerate(ts):
        if mode == 1:
            o = o.clone()
        o.apply_transformation(t)
        ctx.step()
    if mode == 1:
        ctx.check(describe(source) == before, 'the transformed clone changed its source')
    elif source_domain is not None:
        ctx.check((source_domain.start, source_domain.stop) == tuple(d), 'the domain given to the object was changed')
    ctx.check(type(o) is type(source), 'type')
    ctx.vec(o.center, image(c), 'centre', tol=1e-8)
    factor = math.sqrt(abs(math.prod(MOVES[n][0][0]*MOVES[n][0][4] - MOVES[n][0][1]*MOVES[n][0][3] for n in names)))
    if kind == 'circle':
        ctx.close(o.radius, 2*factor, 'radius')
    else:
        ctx.close(o.radius_x, rx*factor, 'x radius'); ctx.close(o.radius_y, ry*factor, 'y radius')
    ctx.check((o.domain is None) == (d is None), 'domain')
    start, span = span_of(d)
    points = [image(at(start + span*k/64)) for k in range(65)]
    size = max(rx, ry)*factor
    # every point of the source is carried on the arc, and only these ones
    if d is not None:
        x = o.domain.span - abs(d[1] - d[0])
        ctx.check(abs(x - 360*round(x/360)) < 1e-6, 'span of the domain {} {}', o.domain, d)
        ends = sorted([image(at(d[0])), image(at(d[1]))])
        got = sorted([xy(o.start_point), xy(o.stop_point)])
        ok = [all(dist(p, q) < 1e-6*size for p, q in zip(ends, x)) for x in (got, got[::-1])]
        ctx.check(any(ok), 'ends: got {}, expected {}', got, ends)
        g0, gspan = span_of((o.domain.start, o.domain.stop))
    else:
        g0, gspan = 0, 360
    ctx.close(gspan, span, 'extent of the arc')
    got = [xy(o.point_at_angle(g0 + gspan*k/64)) for k in range(65)]
    if d is None:
        got = [xy(o.point_at_angle(k)) for k in range(0, 360)]
        far = max(min(dist(p, q) for q in got) for p in points)
        ctx.check(far < .02*size, 'the image is at {} of the closed curve', far)
    else:
        same = [max(dist(p, q) for p, q in zip(points, x)) < 1e-6*size for x in (got, got[::-1])]
        ctx.check(any(same), 'the arc does not go through the images of its points: {} {}', got[:2], points[:2])
    b = o.bounding_box
    dense = [image(at(start + span*k/720)) for k in range(721)]
    lo, hi = [min(p[i] for p in dense) for i in (0, 1)], [max(p[i] for p in dense) for i in (0, 1)]
    for i, side in enumerate((b.x, b.y)):
        ctx.check(abs(side.inf - lo[i]) < 1e-3*size and abs(side.sup - hi[i]) < 1e-3*size, 'bounding box {}', side)
    # then a shear is refused, and leaves the object as it is
    now = describe(o)
    for f in SHEARS:
        try:
            o.apply_transformation(f())
        except ValueError:
            pass
        else:
            ctx.check(False, 'a sheared circle or ellipse is not one')
        ctx.check(describe(o) == now, 'a refused shear changed the object: {} {}', now, describe(o))

def scaled(case, ctx):
    kind, c, rx, ry, phi, d = case
    ctx.state(('scale', case))
    ps = [(x + .25, y - .125) for x in (-3, -1, 0, 2) for y in (-2, 0, 1, 3)]
    lines = [((-5, y), (1, s)) for y in (-1.5, .25, 2) for s in (0, .5, 1.25)] + [((.25, 0), (0, 2))]
    def measures(k):
        P = lambda p: V((k*p[0], k*p[1]))
        if kind == 'circle':
            o = Circle2D(P(c), k*rx, domain(d))
            yield 'perimeter', 1, lambda: o.perimeter
            yield 'area', 2, lambda: o.area
            yield 'angles', 0, lambda: [o.angle_for_point(P(p)) for p in ps]
            yield 'tangents', 1, lambda: [o.tangent_at_angle(a).p for a in range(0, 360, 30)]
            yield 'direction of tangents', 0, lambda: [o.tangent_at_angle(a).v.to_normalised() for a in range(0, 360, 30)]
            yield 'at distance', 1, lambda: [o.point_at_distance(k*a) for a in (0, .5, 2, 7)]
            yield 'signed distances', 1, lambda: [o.signed_distance_to_point(P(p)) for p in ps]
            for p, u in lines:
                yield 'line', 1, lambda: o.intersect_line(Line2D(P(p), V(u)))
            for p in ((1, 2), (2.5, 0), (-.5, -2), (9, 9)):
                for r in (1.25, 3):
                    yield 'circle', 1, lambda: o.intersect_circle(Circle2D(P(p), k*r))
            yield 'from two points', 1, lambda: Circle2D.from_two_points(P(c), P((c[0]+3, c[1]-4))).radius
        else:
            o = Ellipse2D(P(c), k*rx, k*ry, phi, domain(d))
            yield 'axes', 1, lambda: [o.major_vector, o.minor_vector]
            yield 'to Bezier', 1, lambda: [b.points for b in o.to_bezier()]
            def arc():
                e = Ellipse2D.svg_arc(P((0, 0)), P((2, 1)), k*rx, k*ry, phi, d is None, bool(d) and d[0] < 0)
                return e, (e.domain.start, e.domain.stop)
            yield 'SVG arc', 1, lambda: [arc()[0].center, arc()[0].radius_x, arc()[0].radius_y]
            yield 'SVG arc domain', 0, lambda: arc()[1]
        yield 'eccentricity', 0, lambda: o.eccentricity
        yield 'points', 1, lambda: [o.point_at_angle(a) for a in range(0, 360, 30)]
        yield 'ends', 1, lambda: [o.start_point, o.stop_point]
        yield 'bounding box', 1, lambda: [o.bounding_box.x, o.bounding_box.y]
        yield 'inside', 0, lambda: [bool(o.is_point_inside(P(p))) for p in ps]
        if kind == 'circle' or d is None:
            yield 'distances', 1, lambda: [o.distance_to_point(P(p)) for p in ps]
        for p, u in lines:
            for t in (2, 4.5, 9):
                yield 'segment', 1, lambda: o.intersect_segment(Segment2D(P(p), P((p[0] + t*u[0], p[1] + t*u[1]))))
    scale.covariant(ctx, measures, tol=1e-6)

def spaces(tier):
    T = tier == 'thorough'
    dom = DOMAINS[1:] + [[0, 361], [0, 360.5], [10, 370.25], [0, 359.5], [-.25, 360], [.5, .25], [400, 39.75]] + [[a, b] for a in range(-360, 721, 45 if T else 90) for b in range(-360, 721, 45 if T else 90)]
    arcs = DOMAINS + ([[a, b] for a in range(0, 360, 45) for b in range(0, 360, 45)])
    circles = [[c, r, d] for c in ([0, 0], [1, -2], [-1, .5]) for r in (1, 2, .5, 3) for d in (arcs if T or r == 2 else DOMAINS)]
    ctor = [[c, r, a, k] for c in ([0, 0], [1, -2]) for r in (1, 2, .5) for a in (0, 30, 180, -90, 300) for k in (.25, 1, 3, 6, 6.5, 10)]
    g4 = [(x, y) for x in range(4) for y in range(4)]
    tri = [[list(p) for p in t] for t in itertools.permutations(g4, 3) if X.cross(*t)]
    if not T:
        tri = [t for t in tri if t[0] < t[1]]
    n = 4 if T else 3
    grid = [[x, y] for x in range(-n, n+1) for y in range(-n, n+1)]
    lines = lambda: ([c, r, p, q] for c in ([0, 0], [1, -1]) for r in ((1, 2, 3, 5) if T else (1, 2)) for p in grid for q in grid)
    cc = [[c1, r1, c2, r2] for c1 in ([0, 0], [1, -2]) for r1 in (1, 2, 3, 5) for r2 in (1, 2, 3, 4) for c2 in [[x, y] for x in range(-6, 7) for y in range(-6, 7)]]
    angles = [0, 30, 45, 90, 120, 180, 210, -60, 270]
    radii = [(1, 1), (2, 1), (1, 2), (3, .5), (.5, 3), (2, 3)]
    es = [[c, rx, ry, phi, d] for c in ([0, 0], [1, -2]) for rx, ry in radii for phi in angles for d in [None]]
    ea = [[c, rx, ry, phi, d] for c in ([0, 0], [1, -2]) for rx, ry in radii for phi in angles for d in (arcs if T else DOMAINS)[1:]]
    g = [[x + .25, y - .125] for x in range(-3, 4, 1 if T else 2) for y in range(-3, 4, 1 if T else 2)]
    eseg = lambda: ([c, rx, ry, phi, p, q] for c in ([0, 0], [1, -1]) for rx, ry in radii for phi in angles for p in g for q in g if p != q)
    bez = [[c, rx, ry, phi, d] for c in ([0, 0], [1, -2]) for rx, ry in radii for phi in angles for d in DOMAINS + [[a, b] for a in range(-90, 360, 45) for b in range(-90, 360, 45) if abs(a-b) <= 360]]
    ends = [([0, 0], [x, y]) for x in range(-3, 4) for y in range(-3, 4) if (x, y) != (0, 0)] + [([1, -2], [2, 2]), ([3, 3], [-1, 0])]
    arcs_ = lambda: ([p, q, rx, ry, phi, l, s] for p, q in ends for rx, ry in radii + [(0, 1), (1, 0), (-2, 3), (2, -3), (5, 4)]
                     for phi in angles for l in (0, 1) for s in (0, 1))
    kinds = ['circle', [2, 1, 0], [1, 3, 30], [2, 1, -90]]
    tr = [[k, d, list(names), mode] for k in kinds for d in DOMAINS + [[90, 0], [180, -180], [30, 390]] for n in range(1, (4 if T else 3))
          for names in itertools.product(MOVES, repeat=n) for mode in (0, 1, 2) if T or n < 2 or d in DOMAINS[::4]]
    return [
        Space('transformed', tr, transformed, 'circles, ellipses and their arcs x sequences of similarities, in place, cloned or composed; the image of every point; a shear is refused'),
        Space('domains', dom, domains, 'angular domains x query angles'),
        Space('circles', circles, circle, 'centres x radii x domains; points, tangents, bounding box, distances and containment of a 17 x 17 grid of points'),
        Space('circle-ctor', ctor, circle_ctor, 'diameter, start angle and distance, two points'),
        Space('circle-line', lines, intersect_line, 'circles x all pairs of points of a grid, as a line and as a segment'),
        Space('circle-circle', cc, intersect_circle, 'pairs of circles, including tangent, nested and concentric'),
        Space('ellipses', es, ellipse, 'centres x radii x angles; matrix, extent, containment and distance of a grid of points'),
        Space('ellipse-arcs', ea, ellipse, 'centres x radii x angles x domains'),
        Space('ellipse-segment', eseg, ellipse_segment, 'ellipses x all pairs of points of a grid'),
        Space('bezier', bez, to_bezier, 'ellipse arcs of signed span to cubic Bezier curves'),
        Space('svg-arc', arcs_, svg_arc, 'end points x radii x angles x flags against the SVG conversion'),
        Space('scales', [['circle', c, r, r, 0, d] for c in ([0, 0], [1, -.5]) for r in (2, 1.5) for d in (None, [30, 60], [300, 30], [-45, 200])] + [['ellipse', c, a, b, phi, d] for c in ([0, 0], [1, -.5]) for a, b in ((2, 1), (1, 2.5), (1.5, 1.5)) for phi in (0, 30, 90, 200) for d in (None, [30, 60], [300, 30], [-45, 200])], scaled, 'circles, ellipses and arcs at 5 scales'),
    ]

from mc.core import Space
