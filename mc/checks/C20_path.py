"""C20: paths against an independent interpreter of the same commands."""
import itertools, math, logging
from mc import exact as X
from mc.core import Space
from mc.checks.C19_conic import svg_oracle, ell
from Patro.GeometryEngine.Path import Path2D, QuadraticBezierSegment
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Conic import Ellipse2D
from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
from Patro.GeometryEngine.Transformation import Transformation2D as T2, AffineTransformation2D as A2
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GeometryEngine.Shape.ArrowHead import TriangularHead, TriangularCurvyHead

PROPERTY = 'C20'
ASSUMPTIONS = ['rounded corners are checked where the two neighbouring segments are neither null nor parallel, whatever the length of the segments (the library does not limit the radius)',
               'a path with rounded corners is transformed by isometries and uniform scaling of a named kind; the others by any linear or affine transformation',
               'command alphabets use small integer coordinates; paths are explored up to 4 commands plus the closure']

logging.disable(logging.CRITICAL)

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

S = math.sqrt(.5)
DIRS = {'north': (0, 1), 'south': (0, -1), 'east': (1, 0), 'west': (-1, 0), 'north_east': (S, S), 'north_west': (-S, S),
        'south_east': (S, -S), 'south_west': (-S, -S)}

# a command: [name, points or lengths, absolute, radius]

def apply_command(path, c):
    name, args, ab, r = c
    if name == 'h':
        return path.horizontal_to(args, radius=r, absolute=bool(ab))
    if name == 'v':
        return path.vertical_to(args, radius=r, absolute=bool(ab))
    if name == 'H':
        return path.absolute_horizontal_to(args, radius=r)
    if name == 'V':
        return path.absolute_vertical_to(args, radius=r)
    if name == 'l':
        return path.line_to(V(args), radius=r, absolute=bool(ab))
    if name in DIRS:
        return getattr(path, name + '_to')(args, radius=r)
    if name == 'q':
        return path.quadratic_to(V(args[0]), V(args[1]), absolute=bool(ab))
    if name == 'c':
        return path.cubic_to(*[V(p) for p in args], absolute=bool(ab))
    if name == 't':
        return path.stringed_quadratic_to(V(args), absolute=bool(ab))
    if name == 's':
        return path.stringed_cubic_to(V(args[0]), V(args[1]), absolute=bool(ab))
    if name == 'a':
        return path.arc_to(V(args[0]), args[1], args[2], args[3], args[4], args[5], absolute=bool(ab))
    raise KeyError(name)

LINEAR = set('hvHVl') | set(DIRS) | {'z'}

class Part:
    def __init__(self, kind, points, radius=None, arc=None):
        self.kind, self.points, self.radius, self.arc = kind, points, radius, arc

def interpret(start, commands, close):
    """the parts of the outline in absolute coordinates"""
    parts = []
    cur = start
    for name, args, ab, r in commands:
        o = (0, 0) if ab else cur
        P = lambda p: (o[0] + p[0], o[1] + p[1])
        if name in 'hv' and len(name) == 1:
            k = 0 if name == 'h' else 1
            q = list(cur); q[k] = args if ab else cur[k] + args
            part = Part('line', [cur, tuple(q)], r)
        elif name == 'H':
            part = Part('line', [cur, (args, cur[1])], r)
        elif name == 'V':
            part = Part('line', [cur, (cur[0], args)], r)
        elif name == 'l':
            part = Part('line', [cur, P(args)], r)
        elif name in DIRS:
            d = DIRS[name]
            part = Part('line', [cur, (cur[0] + d[0]*args, cur[1] + d[1]*args)], r)
        elif name == 'q':
            part = Part('quad', [cur] + [P(p) for p in args])
        elif name == 'c':
            part = Part('cubic', [cur] + [P(p) for p in args])
        elif name == 't':
            last = parts[-1] if parts else None
            q = (2*cur[0] - last.points[1][0], 2*cur[1] - last.points[1][1]) if last is not None and last.kind == 'quad' else cur
            part = Part('quad', [cur, q, P(args)])
        elif name == 's':
            last = parts[-1] if parts else None
            q = (2*cur[0] - last.points[2][0], 2*cur[1] - last.points[2][1]) if last is not None and last.kind == 'cubic' else cur
            part = Part('cubic', [cur, q] + [P(p) for p in args])
        elif name == 'a':
            part = Part('arc', [cur, P(args[0])], arc=list(args[1:]))
        parts.append(part)
        cur = part.points[-1]
    if close is not None:
        parts.append(Part('line', [cur, start], close[0]))
        if close[1]:
            parts[0].radius = close[1]
    for part in parts:
        if not part.radius:
            part.radius = None
    return parts

def corners(parts, closed):
    """{index of the part that owns the corner: (previous direction, direction)}, None if a corner is degenerate"""
    out = {}
    for i, part in enumerate(parts):
        if part.radius is None:
            continue
        prev = parts[i-1]
        u = (prev.points[1][0]-prev.points[0][0], prev.points[1][1]-prev.points[0][1])
        v = (part.points[1][0]-part.points[0][0], part.points[1][1]-part.points[0][1])
        lu, lv = math.hypot(*u), math.hypot(*v)
        if lu < 1e-9 or lv < 1e-9:
            return None
        u = (u[0]/lu, u[1]/lu); v = (v[0]/lv, v[1]/lv)
        if abs(u[0]*v[1] - u[1]*v[0]) < 1e-6:
            return None
        out[i] = (u, v)
    return out

def fillet(vertex, u, v, r):
    """centre, tangent points of the circle of radius r in the corner"""
    cr = u[0]*v[1] - u[1]*v[0]
    s = 1 if cr > 0 else -1
    # on the inner side, at distance r of both lines
    turn = math.atan2(cr, u[0]*v[0] + u[1]*v[1])
    d = r*math.tan(abs(turn)/2)
    a = (vertex[0] - u[0]*d, vertex[1] - u[1]*d)
    b = (vertex[0] + v[0]*d, vertex[1] + v[1]*d)
    c = (a[0] - u[1]*r*s, a[1] + u[0]*r*s)
    return c, a, b, s

def compare(ctx, path, parts, closed, msg):
    ctx.eq(len(path), len(parts), msg + ': number of parts')
    ctx.eq(bool(path.is_closed), closed, msg + ': is_closed')
    ctx.eq([p.index for p in path], list(range(len(parts))), msg + ': indexes')
    fil = corners(parts, closed)
    fil = {i: fillet(parts[i].points[0], *d, parts[i].radius) for i, d in fil.items()}
    lo = [math.inf]*2; hi = [-math.inf]*2
    def extend(pts):
        for p in pts:
            for k in (0, 1):
                lo[k] = min(lo[k], p[k]); hi[k] = max(hi[k], p[k])
    for i, (got, want) in enumerate(zip(path, parts)):
        m = '{}: part {} ({})'.format(msg, i, want.kind)
        ctx.check(path[i] is got and got.path is path, m + ': access')
        ctx.vec(got.start_point, want.points[0], m + ' starts')
        ctx.vec(got.stop_point, want.points[-1], m + ' stops')
        if i:
            ctx.vec(got.start_point, xy(path[i-1].stop_point), m + ' is not connected')
        points = list(want.points)
        if want.kind == 'line':
            r = got.radius
            ctx.check((r is None) if want.radius is None else abs(r - want.radius) < 1e-9, m + ': radius {} expected {}', r, want.radius)
            if want.radius is not None:
                c, a, b, s = fil[i]
                points[0] = b
                ctx.vec(got.bulge_center, c, m + ': centre of the corner', 1e-6)
                ctx.vec(got.bulge_start_point, a, m + ': start of the corner', 1e-6)
                ctx.vec(got.bulge_stop_point, b, m + ': stop of the corner', 1e-6)
                arc = got.bulge_geometry
                ctx.vec(arc.center, c, m + ': centre of the corner arc', 1e-6)
                ctx.close(arc.radius, want.radius, m + ': radius of the corner arc')
                ends = [xy(arc.start_point), xy(arc.stop_point)]
                want_ends = [a, b] if s > 0 else [b, a] # counter-clockwise
                for g, w in zip(ends, want_ends):
                    ctx.check(math.hypot(g[0]-w[0], g[1]-w[1]) < 1e-5, m + ': ends of the corner arc {}, expected {}', ends, want_ends)
                # the arc is the one close to the vertex
                ctx.check(arc.domain.length < math.pi + 1e-6, m + ': the corner arc goes around')
            j = i + 1 if i + 1 < len(parts) else (0 if closed else None)
            if j is not None and parts[j].radius is not None and parts[j].kind == 'line' and fil.get(j) is not None:
                points[-1] = fil[j][1]
            extend(points)
        elif want.kind == 'arc':
            rx, ry, phi, large, sweep = want.arc
            if rx and ry and points[0] != points[1]:
                sols, scaled = svg_oracle(points[0], points[1], rx, ry, phi, large, sweep)
                g = got.geometry
                ctx.check(isinstance(g, Ellipse2D), m + ': ellipse')
                C, RX, RY, a1, span = sols[0]
                tol = 1e-5 if scaled else 1e-7
                ctx.vec(g.center, C, m + ': centre', tol)
                if scaled:
                    span = 180 if sweep else -180
                sw = g.domain.stop - g.domain.start
                ctx.check(abs(sw - span) < 1e-3, m + ': signed span: {}, expected {}', sw, span)
                for k in range(9):
                    want_p = ell(C, RX, RY, phi, a1 + span*k/8)
                    p = xy(g.point_at_angle(g.domain.start + sw*k/8))
                    ctx.check(math.hypot(p[0]-want_p[0], p[1]-want_p[1]) < 1e-3*max(1, RX, RY), m + ': point {} expected {}', p, want_p)
                    f = ((p[0]-C[0])*math.cos(math.radians(phi)) + (p[1]-C[1])*math.sin(math.radians(phi)),
                         -(p[0]-C[0])*math.sin(math.radians(phi)) + (p[1]-C[1])*math.cos(math.radians(phi)))
                    ctx.check(abs((f[0]/RX)**2 + (f[1]/RY)**2 - 1) < 1e-4, m + ': {} is not on the ellipse', p)
                extend([ell(C, RX, RY, phi, a1 + span*k/1440) for k in range(1441)])
                b = got.bounding_box
                pts = [ell(C, RX, RY, phi, a1 + span*k/1440) for k in range(1441)]
                w = (min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts))
                for gg, ww in zip((b.x.inf, b.x.sup, b.y.inf, b.y.sup), w):
                    ctx.check(abs(gg - ww) < 1e-4*max(1, RX, RY), m + ': bounding box {} expected {}', b, w)
            else:
                extend(points)
        else:
            extend(points)
        got_points = [xy(p) for p in got.points]
        ctx.check(len(got_points) == len(points) and all(math.hypot(g[0]-w[0], g[1]-w[1]) < 1e-6*max(1, abs(w[0]), abs(w[1])) for g, w in zip(got_points, points)),
                  m + ': points {}, expected {}', got_points, points)
        g = got.geometry
        if want.kind != 'arc':
            cls = {'line': Segment2D, 'quad': QuadraticBezier2D, 'cubic': CubicBezier2D}[want.kind]
            ctx.check(isinstance(g, cls), m + ': geometry {}', type(g))
            for a, w in zip(g.points, points):
                ctx.vec(a, w, m + ': geometry', 1e-6)
    if parts:
        b = path.bounding_box
        for g, w in zip((b.x.inf, b.x.sup, b.y.inf, b.y.sup), (lo[0], hi[0], lo[1], hi[1])):
            ctx.check(abs(g - w) < 1e-4*max(1, abs(w), hi[0] - lo[0], hi[1] - lo[1]), msg + ': bounding box {}, expected {} {}', b, lo, hi)

def rot(a):
    c, s = math.cos(math.radians(a)), math.sin(math.radians(a))
    return (c, -s, s, c, 0, 0)

def mul(m, n):
    """m after n"""
    a, b, c, d, e, f = m; A, B, C, D, E, G = n
    return (a*A + b*C, a*B + b*D, c*A + d*C, c*B + d*D, a*E + b*G + e, c*E + d*G + f)

# name: constructor, matrix (a b c d tx ty), uniform scale usable for radii or None
TRANS = {
    'id': (lambda: T2.Identity(), (1, 0, 0, 1, 0, 0), 1),
    'r90': (lambda: T2.Rotation(90), rot(90), 1),
    'r-30': (lambda: T2.Rotation(-30), rot(-30), 1),
    's2': (lambda: T2.Scale(2, 2), (2, 0, 0, 2, 0, 0), 2),
    's.5': (lambda: T2.Scale(.5, .5), (.5, 0, 0, .5, 0, 0), .5),
    'P': (lambda: T2.Parity(), (-1, 0, 0, -1, 0, 0), 1),
    'X': (lambda: T2.XReflection(), (-1, 0, 0, 1, 0, 0), 1),
    'Y': (lambda: T2.YReflection(), (1, 0, 0, -1, 0, 0), 1),
    't': (lambda: A2.Translation(Vector2D(3, -2)), (1, 0, 0, 1, 3, -2), 1),
    'ar': (lambda: A2.Rotation(60), rot(60), 1),
    's2,3': (lambda: T2.Scale(2, 3), (2, 0, 0, 3, 0, 0), None),
    'sh': (lambda: T2([1, 2, 0, 1]), (1, 2, 0, 1, 0, 0), None),
    'gen': (lambda: T2([1, 2, -3, .5]), (1, 2, -3, .5, 0, 0), None),
    'tr': (lambda: A2.Translation(Vector2D(1, 2))*A2.Rotation(30)*A2.Scale(2, -2), mul((1, 0, 0, 1, 1, 2), mul(rot(30), (2, 0, 0, -2, 0, 0))), None),
}

def arc_transform(arc, m):
    """radii, angle, flags of the image of the ellipse, from the implicit equation"""
    rx, ry, phi, large, sweep = arc
    if not (rx and ry):
        return arc # a segment
    k, s = math.cos(math.radians(phi)), math.sin(math.radians(phi))
    a, b, c, d = m[:4]
    A = ((a*k + b*s)*rx, (c*k + d*s)*rx)
    B = ((-a*s + b*k)*ry, (-c*s + d*k)*ry)
    # conjugate half diameters to half axes
    t = .5*math.atan2(2*(A[0]*B[0] + A[1]*B[1]), A[0]**2 + A[1]**2 - B[0]**2 - B[1]**2)
    P = (A[0]*math.cos(t) + B[0]*math.sin(t), A[1]*math.cos(t) + B[1]*math.sin(t))
    Q = (-A[0]*math.sin(t) + B[0]*math.cos(t), -A[1]*math.sin(t) + B[1]*math.cos(t))
    det = a*d - b*c
    return [math.hypot(*P), math.hypot(*Q), math.degrees(math.atan2(P[1], P[0])), large, (1 - sweep) if det < 0 else sweep]

def transformed(parts, m, k):
    out = []
    for p in parts:
        pts = [(m[0]*x + m[1]*y + m[4], m[2]*x + m[3]*y + m[5]) for x, y in p.points]
        out.append(Part(p.kind, pts, None if p.radius is None else p.radius*k, None if p.arc is None else arc_transform(p.arc, m)))
    return out

def program(case, ctx):
    start, commands, close, names = case
    start = tuple(start)
    ctx.state(case[:3])
    parts = interpret(start, commands, close)
    closed = close is not None
    # a corner needs a linear previous part
    path = Path2D(V(start))
    ctx.check(len(path) == 0 and not path.is_closed, 'new path')
    kinds = []
    for i, c in enumerate(commands):
        bad = c[3] and (i == 0 or kinds[-1] not in LINEAR)
        if bad:
            ctx.raises(ValueError, lambda: apply_command(path, c), 'corner after a curve')
            ctx.eq(len(path), i, 'a rejected command changed the path')
            ctx.outcome('rejected')
            return
        part = apply_command(path, c)
        ctx.check(part is not None and path[i] is part, 'the command returns its part')
        kinds.append(c[0])
    if closed:
        if close[0] and (not kinds or kinds[-1] not in LINEAR):
            ctx.raises(ValueError, lambda: path.close(radius=close[0], close_radius=close[1]), 'corner after a curve')
            return
        if close[1] and kinds[0] not in LINEAR:
            return
    if corners(parts, closed) is None:
        return
    if closed:
        path.close(radius=close[0], close_radius=close[1])
    compare(ctx, path, parts, closed, 'path')
    ctx.outcome([p.kind for p in parts])
    if closed:
        for extra in (['l', [5, 5], 1, None], ['q', [[1, 1], [2, 2]], 0, None]):
            apply_command(path, extra)
        compare(ctx, path, parts, closed, 'commands after the closure')
        path.close(close_radius=1.25)
        compare(ctx, path, parts, closed, 'closed again')
    clone = path.clone()
    ctx.check(clone is not path and type(clone) is Path2D and all(a is not b for a, b in zip(clone, path)), 'clone')
    compare(ctx, clone, parts, closed, 'clone')
    rounded = any(p.radius is not None for p in parts)
    for seq in names:
        p, want = path, parts
        ok = True
        obj = None
        for n in seq:
            f, m, k = TRANS[n]
            if rounded and k is None:
                ok = False
                break
            want = transformed(want, m, k)
            if obj is None:
                obj = path.transform(f(), clone=True)
            else:
                obj.transform(f())
        if not ok:
            continue
        compare(ctx, obj, want, closed, 'transformed by {}'.format(seq))
        compare(ctx, obj.clone(), want, closed, 'clone of the path transformed by {}'.format(seq))
    compare(ctx, path, parts, closed, 'path, after its clones are transformed')
    # an independent move of the start, a closed path still ends there
    w = interpret((start[0] + 2, start[1] + 7), commands, close)
    if corners(w, closed) is not None:
        moved = path.clone()
        moved.move_to(V((start[0] + 2, start[1] + 7)))
        compare(ctx, moved, w, closed, 'moved')
        moved = path.clone()
        moved.p0 = V((start[0] + 2, start[1] + 7))
        compare(ctx, moved, w, closed, 'with another start point')
        compare(ctx, path, parts, closed, 'path, after its clone is moved')

def shapes(case, ctx):
    kind, p, w, h, r = case
    ctx.state(case)
    p = tuple(p)
    if kind == 'rectangle':
        path = Path2D.rounded_rectangle(V(p), w, h, r)
    else:
        path = Path2D.circle(V(p), r)
        w = h = 2*r
    cmd = [['h', w, 0, None], ['v', h, 0, r], ['h', -w, 0, r]]
    compare(ctx, path, interpret(p, cmd, [r, r]), True, kind)
    if kind == 'circle':
        for part in path:
            ctx.vec(part.bulge_center, (p[0] + r, p[1] + r), 'centre')

def heads(case, ctx):
    point, d, length, width, off, left, right, depth = case
    ctx.state(case)
    if not (left or right):
        ctx.raises(ValueError, lambda: TriangularHead(V(point), V(d), length, width, off, left, right), 'no side')
        return
    n = math.hypot(*d)
    u = (d[0]/n, d[1]/n); nn = (-u[1], u[0])
    P = lambda a, b: (point[0] + u[0]*a + nn[0]*b, point[1] + u[1]*a + nn[1]*b)
    L, R, B, O = P(-length, width), P(-length, -width), P(-length, 0), P(-length - off, 0)
    sides = ([L] if left else []) + ([O] if off else []) + ([R] if right else [])
    if left and right:
        want = [tuple(point), L] + ([O] if off else []) + [R]
    else:
        want = [tuple(point), L if left else R, O if off else B]
    direction = V(d)
    h = TriangularHead(V(point), direction, length, width, off, left, right)
    got = [xy(p) for p in h.points]
    ctx.check(len(got) == len(want), 'points {}, expected {}', got, want)
    for g, w in zip(h.points, want):
        ctx.vec(g, w, 'triangular head')
    ctx.check(xy(direction) == tuple(d), 'the direction was modified')
    ctx.close(h.angle, 2*math.degrees(math.atan2(width, length)), 'angle')
    c = TriangularCurvyHead(V(point), V(d), length, width, depth, off, left, right)
    for h in (h, c):
        ctx.vec(h.tip_point, point, 'tip'); ctx.vec(h.back_tip_point, B, 'back tip'); ctx.vec(h.anchor_point, point, 'anchor')
        ctx.vec(h.offseted_back_tip_point, O, 'offseted back tip')
        ctx.vec(h.direction, u, 'direction')
        ctx.eq((h.length, h.width, h.axial_offset, h.has_axial_offset), (length, width, off, off != 0), 'length, width and offset')
        ctx.eq((h.left_side, h.right_side, h.both_side, h.only_left, h.only_right),
               (left, right, left and right, left and not right, right and not left), 'sides')
        for side, got, w in (('left', h.left_point, L if left else None), ('right', h.right_point, R if right else None)):
            if w is None:
                ctx.check(got is None, '{} point {} of a head without this side', side, got)
            else:
                ctx.vec(got, w, side + ' point')
    ctx.eq(c.curve_depth, depth, 'depth')
    # the control point of a side is in front of its middle, outside, at a distance proportional to the length of the side
    quads = [part for part in c if isinstance(part, QuadraticBezierSegment)]
    ctx.eq(len(quads), left + right, 'number of curved sides')
    for side, on, q, got, sign in (('left', left, 0, c.left_curved_point, 1), ('right', right, -1, c.right_curved_point, -1)):
        if not on:
            ctx.check(got is None, '{} curved point {} of a head without this side', side, got)
            continue
        w = P(-length/2 + depth*width, sign*(width/2 + depth*length))
        ctx.vec(got, w, side + ' curved point')
        ctx.vec(quads[q].points[1], w, 'control point of the {} side'.format(side))
    pts = [xy(p.stop_point) for p in c]
    want2 = want[1:] + [tuple(point)]
    if left and right:
        want2 = want2 + [tuple(point)]
    ctx.check(len(pts) == len(want2), 'curvy head {}, expected {}', pts, want2)
    for g, w in zip(c, want2):
        ctx.vec(g.stop_point, w, 'curvy head')

LINES = [['h', 3, 0, None], ['h', -2, 1, None], ['v', -2, 0, None], ['v', 5, 1, None], ['H', 4, 0, None], ['V', -3, 0, None],
         ['l', [2, 1], 0, None], ['l', [2, 1], 1, None], ['l', [-1, 3], 0, None], ['l', [0, 0], 0, None]]
COMPASS = [[k, 2, 0, None] for k in DIRS]
CURVES = [['q', [[1, 2], [3, 0]], 0, None], ['q', [[1, 2], [3, 0]], 1, None], ['c', [[1, 2], [3, 0], [4, 4]], 0, None],
          ['c', [[1, 2], [3, 0], [4, 4]], 1, None], ['t', [2, -1], 0, None], ['t', [2, -1], 1, None],
          ['s', [[2, -1], [3, 1]], 0, None], ['s', [[2, -1], [3, 1]], 1, None]]
ARCS = [['a', [[2, 1], 3, 2, 30, l, s], ab, None] for l in (0, 1) for s in (0, 1) for ab in (0, 1)] + [['a', [[4, 1], 1, 1, 0, 0, 1], 0, None], ['a', [[1, 1], 0, 1, 0, 0, 1], 0, None]]
ROUND = [c[:3] + [r] for c in LINES[:9] + COMPASS[:5] for r in ((.5,) if c[0] in DIRS else (.5, 1))] + [['l', [2, 1], 0, 0]]
CLOSE = [None, [None, None], [.5, None], [None, 1], [.5, 2]]

def spaces(tier):
    T = tier == 'thorough'
    single = [[n] for n in TRANS]
    pairs = [[a, b] for a in ('r-30', 's2', 'X', 't', 'gen') for b in ('r90', 's.5', 'P', 'ar', 's2,3', 'tr')]
    alln = LINES + COMPASS + CURVES + ARCS + ROUND
    few = [['r-30'], ['tr'], ['X', 's2'], ['t', 's2,3']]
    starts = ([1, 2], [0, 0]) if T else ([1, 2],)
    one = [[s, [c], z, single + pairs] for s in ([1, 2], [0, 0]) for c in alln for z in CLOSE]
    two = lambda: ([s, [a, b], z, single if T else few] for s in starts for a in alln for b in alln for z in (CLOSE if T else CLOSE[:2] + CLOSE[4:]))
    lin = [LINES[0], LINES[3], LINES[5], LINES[6], COMPASS[5], CURVES[0], CURVES[4], CURVES[6], ARCS[2], ['l', [2, 1], 0, .5], ['h', -2, 0, 1], ['V', -3, 0, .5], ['north_east', 2, 0, .5], ['v', 5, 1, .5]]
    three = lambda: ([[1, 2], list(p), z, few[1:3]] for p in itertools.product(lin, repeat=3) for z in (CLOSE if T else (None, CLOSE[4])))
    corner = [['l', p, 0, r] for p in ([3, 0], [0, 3], [-3, 0], [0, -3], [2, 3], [-2, 1]) for r in (None, .5)]
    four_a = [['h', 3, 0, None], ['l', [1, 2], 0, .5], ['q', [[1, 2], [3, 0]], 0, None], ['t', [2, -1], 0, None], ['c', [[1, 2], [3, 0], [4, 4]], 1, None], ['s', [[2, -1], [3, 1]], 0, None], ['V', 4, 0, .5]]
    four = lambda: ([[1, 2], list(p), z, few[:2]] for p in itertools.product(four_a + (corner[:4] if T else []), repeat=4) for z in (None, CLOSE[4]))
    poly = lambda: ([[1, 2], list(p), z, [['Y'], ['r-30', 's2']]] for p in itertools.product(corner, repeat=3) for z in (None, CLOSE[4], CLOSE[3]))
    sh = [['rectangle', p, w, h, r] for p in ([0, 0], [1, -2]) for w in (4, 7, -5) for h in (3, 6, -4) for r in (None, .5, 1)] + \
         [['circle', p, 0, 0, r] for p in ([0, 0], [1, -2]) for r in (1, 2.5)]
    hd = [[p, d, l, w, o, a, b, k] for p in ([0, 0], [2, -1]) for d in ([1, 0], [0, 2], [-1, 1], [3, -4]) for l in (1, 3) for w in (1, 2) for o in (0, 1, -.5)
          for a, b in ((True, True), (True, False), (False, True), (False, False)) for k in (.1, .5)]
    def times(k, c):
        name, args, ab, r = c
        if name == 'a':
            args = [[k*x for x in args[0]], k*args[1], k*args[2]] + list(args[3:])
        elif name in 'qcs' and isinstance(args[0], (list, tuple)):
            args = [[k*x for x in p] for p in args]
        elif isinstance(args, (list, tuple)):
            args = [k*x for x in args]
        else:
            args = k*args
        return [name, args, ab, None if r is None else k*r]
    def scaled():
        for k in (2.**-9, 2.**-3, 2.**5, 2.**13):
            for a in alln:
                for b in lin:
                    for z in (None, CLOSE[4]):
                        yield [[k, 2*k], [times(k, a), times(k, b)], None if z is None else [None if r is None else k*r for r in z], few[1:3]]
    return [
        Space('scales', scaled, program, 'pairs of commands at 4 scales'),
        Space('one-command', one, program, 'one command, every closure, 14 transformations and 30 pairs of them'),
        Space('two-commands', two, program, 'every pair of 46 commands, closures, clones, transformations'),
        Space('three-commands', three, program, 'every triple of 14 commands, closures'),
        Space('four-commands', four, program, 'every 4 commands of 7'),
        Space('corners', poly, program, 'every polyline of 3 segments of 6 directions, with rounded corners, open or closed'),
        Space('shapes', sh, shapes, 'rounded rectangles and circles'),
        Space('arrow-heads', hd, heads, 'triangular and curvy arrow heads'),
    ]
