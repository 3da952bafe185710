"""Construction programs of the pattern engine and their independent evaluation.

A program is a list of steps; a step is a list [kind, operands...], where the points are referred by
their index in the program (only points have an index in the list of points).
  single x y | along p q len | end p ang len | inter p q r s | normal p q ang len | contact p q c rad
  | cross p q | line p q | spline p q a1 l1 a2 l2
"""
import math

from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicStyle import Colors, StrokeStyle
from Patro.Measurement.ValentinaMeasurement import ValentinaMeasurements
from Patro.Pattern.Pattern import Pattern
import Patro.Pattern # register the operations

NAMES = ['A', 'A1', 'A10', 'B', 'Line', 'Z9', 'a', 'b2', 'C', 'C1', 'D', 'E']
MEAS = {'w': 4., '@m': 1.5, '@mm': 0.25, 'h': 6.}
POINT_KINDS = ('single', 'along', 'end', 'inter', 'normal', 'contact', 'cross')
ARITY = {'single': 0, 'along': 2, 'end': 1, 'inter': 4, 'normal': 2, 'contact': 3, 'cross': 2, 'line': 2, 'spline': 2}

def measurements():
    m = ValentinaMeasurements('cm')
    for k, v in MEAS.items():
        m.add(k, str(v))
    return m

def new_sketch(pattern=None):
    if pattern is None:
        pattern = Pattern(measurements(), 'cm')
    return pattern.add_scope('scope').sketch

####################################################################################################
# oracle

class NoSolution(Exception):
    pass

class Ill(Exception):
    """badly conditioned: rounding decides"""

def formula(f, pos, current=None):
    """value of the small formula alphabet used by the programs"""
    if isinstance(f, (int, float)):
        return float(f)
    total = 0.
    for term in f.split(' + '):
        v = 1.
        op = '*'
        for tok in term.replace('*', ' * ').replace('/', ' / ').split():
            if tok in '*/':
                op = tok
                continue
            sign = 1
            if tok.startswith('-'):
                sign, tok = -1, tok[1:]
            if tok in MEAS:
                x = MEAS[tok]
            elif tok == 'CurrentLength':
                x = current
            elif tok.startswith('Line_'):
                p, q = [pos[n] for n in tok[5:].split('_')]
                x = math.hypot(q[0] - p[0], q[1] - p[1])
            elif tok.startswith('AngleLine_'):
                p, q = [pos[n] for n in tok[10:].split('_')]
                x = math.degrees(math.atan2(q[1] - p[1], q[0] - p[0]))
            else:
                x = float(tok)
            v = v*sign*x if op == '*' else v/(sign*x)
        total += v
    return total

def unit(v, exact):
    n = math.hypot(*v)
    if n < 1e-5:
        if n == 0 and exact:
            raise NoSolution
        raise Ill
    return v[0]/n, v[1]/n, n

def polar(angle, length):
    a = math.radians(angle)
    return math.cos(a)*length, math.sin(a)*length

def evaluate_step(step, P, pos, exact):
    """list of acceptable positions of a point, or the geometry of a line or spline"""
    k = step[0]
    if any(x is None for x in P):
        if k == 'cross': # takes a single coordinate of each
            raise Ill
        raise NoSolution
    if k == 'single':
        return [(formula(step[1], pos), formula(step[2], pos))]
    if k == 'along':
        p, q = P
        ux, uy, n = unit((q[0] - p[0], q[1] - p[1]), exact)
        l = formula(step[3], pos, n)
        return [(p[0] + ux*l, p[1] + uy*l)]
    if k == 'end':
        p, = P
        dx, dy = polar(formula(step[2], pos), formula(step[3], pos))
        return [(p[0] + dx, p[1] + dy)]
    if k == 'inter':
        p, q, r, s = P
        a = (q[0] - p[0], q[1] - p[1]); b = (s[0] - r[0], s[1] - r[1])
        d = a[0]*b[1] - a[1]*b[0]
        scale = math.hypot(*a)*math.hypot(*b)
        if abs(d) <= 1e-5*scale or scale < 1e-5:
            if d == 0 and exact:
                raise NoSolution
            raise Ill
        t = ((r[0] - p[0])*b[1] - (r[1] - p[1])*b[0])/d
        return [(p[0] + a[0]*t, p[1] + a[1]*t)]
    if k == 'normal':
        p, q = P
        ux, uy, n = unit((q[0] - p[0], q[1] - p[1]), exact)
        a = math.radians(formula(step[3], pos, n)); l = formula(step[4], pos, n)
        nx, ny = -uy, ux
        nx, ny = nx*math.cos(a) - ny*math.sin(a), nx*math.sin(a) + ny*math.cos(a)
        return [(p[0] + nx*l, p[1] + ny*l)]
    if k == 'contact':
        p, q, c = P
        ux, uy, n = unit((q[0] - p[0], q[1] - p[1]), exact)
        rad = formula(step[4], pos, n)
        t0 = (c[0] - p[0])*ux + (c[1] - p[1])*uy
        d = (c[0] - p[0])*uy - (c[1] - p[1])*ux
        disc = rad*rad - d*d
        if abs(disc) < 1e-6*max(1., rad*rad):
            if abs(disc) > 1e-12:
                raise Ill # nearly tangent
            return [(p[0] + ux*t0, p[1] + uy*t0), 'tangent']
        if disc < 0:
            raise NoSolution
        h = math.sqrt(disc)
        ts = [t0 - h, t0 + h]
        if any(abs(t) < 1e-6 or abs(t - n) < 1e-6 for t in ts):
            inside = []
        else:
            inside = [t for t in ts if 0 < t < n]
        if len(inside) == 1:
            ts = inside
        return [(p[0] + ux*t, p[1] + uy*t) for t in ts]
    if k == 'cross':
        p, q = P
        return [(p[0], q[1])]
    if k == 'line':
        return list(P)
    if k == 'spline':
        p, q = P
        d1 = polar(formula(step[3], pos), formula(step[4], pos))
        d2 = polar(formula(step[5], pos), formula(step[6], pos))
        return [p, (p[0] + d1[0], p[1] + d1[1]), (q[0] + d2[0], q[1] + d2[1]), q]

def step_points(step):
    return list(step[1:1 + ARITY[step[0]]])

####################################################################################################
# implementation

STYLES = [StrokeStyle.NoPen, StrokeStyle.SolidLine, StrokeStyle.DashLine, StrokeStyle.DotLine, StrokeStyle.DashDotLine, StrokeStyle.DashDotDotLine]
COLORS = [Colors.black, Colors.blue, Colors.goldenrod, Colors.deeppink]

def offset(i):
    return Vector2D(i/3, -.5*i + 2e-7*(i % 2))

def add_step(sketch, step, points, ref='name', id=None, style=None, color=None):
    """execute a step on a sketch; *points* is the list of the point operations so far"""
    k = step[0]
    def R(i):
        p = points[i]
        return {'name': lambda: p.name, 'id': lambda: p.id, 'object': lambda: p}[ref]()
    name = NAMES[len(points)]
    off = offset(len(points))
    kw = {}
    if id is not None:
        kw['id'] = id
    if k in ('along', 'end', 'normal', 'line', 'spline'):
        if style is not None:
            kw['line_style'] = style
        if color is not None:
            kw['line_color'] = color
    if k == 'single':
        op = sketch.SinglePoint(name, step[1], step[2], off, **kw)
    elif k == 'along':
        op = sketch.AlongLinePoint(name, R(step[1]), R(step[2]), step[3], off, **kw)
    elif k == 'end':
        op = sketch.EndLinePoint(name, R(step[1]), step[2], step[3], off, **kw)
    elif k == 'inter':
        op = sketch.LineIntersectPoint(name, R(step[1]), R(step[2]), R(step[3]), R(step[4]), off, **kw)
    elif k == 'normal':
        op = sketch.NormalPoint(name, R(step[1]), R(step[2]), step[3], step[4], off, **kw)
    elif k == 'contact':
        op = sketch.PointOfContact(name, R(step[1]), R(step[2]), R(step[3]), step[4], off, **kw)
    elif k == 'cross':
        op = sketch.PointOfIntersection(name, R(step[1]), R(step[2]), off, **kw)
    elif k == 'line':
        op = sketch.Line(R(step[1]), R(step[2]), **kw)
    elif k == 'spline':
        op = sketch.SimpleInteractiveSpline(R(step[1]), R(step[2]), *step[3:7], **kw)
    if k in POINT_KINDS:
        points.append(op)
    return op

def finite(v):
    return v is not None and all(math.isfinite(float(x)) for x in (v.x, v.y))

def near(a, b, tol=1e-7):
    s = max(1., abs(a[0]), abs(a[1]), abs(b[0]), abs(b[1]))
    return abs(a[0] - b[0]) <= tol*s and abs(a[1] - b[1]) <= tol*s

def check_program(ctx, program, ops, raised=None):
    """compare every operation with its construction; returns the positions, None where there is none"""
    pts = []
    pos = {}
    for step, op in zip(program, ops):
        P = [pts[i] for i in step_points(step)]
        where = '{} in {}'.format(step, program)
        try:
            want = evaluate_step(step, P, pos, all(program[i][0] == 'single' for i in step_points(step)))
        except NoSolution:
            want = 'none'
        except Ill:
            want = None
        except (KeyError, TypeError):
            want = 'none' # a formula on a point without position
        point = step[0] in POINT_KINDS
        if want == 'none':
            if point:
                ctx.check(not finite(op.vector), '{} has no solution but the point stands at {}', where, op.vector)
                pts.append(None)
            continue
        if raised is not None and point and op.vector is None:
            # the evaluation was refused at a previous step
            pts.append(None)
            continue
        if point:
            if want is None:
                if not finite(op.vector):
                    pts.append(None)
                    continue
                got = (float(op.vector.x), float(op.vector.y))
            else:
                tangent = want[-1] == 'tangent'
                if tangent:
                    want = want[:-1]
                    if op.vector is None: # rounding
                        pts.append(None)
                        continue
                ctx.check(finite(op.vector), '{}: no position, expected {}', where, want)
                got = (float(op.vector.x), float(op.vector.y))
                ctx.check(any(near(got, w, 1e-4 if tangent else 1e-7) for w in want), '{}: at {}, expected {}', where, got, want)
                g = op.geometry()
                ctx.check(near((g.x, g.y), got), 'geometry of {}', where)
            pts.append(got)
            pos[op.name] = got
        elif want is None:
            pass
        elif step[0] == 'line':
            g = op.geometry()
            ctx.check(all(near((p.x, p.y), w) for p, w in zip((g.p0, g.p1), want)), '{}: {}, expected {}', where, g, want)
        elif raised is None:
            got = [op.first_point.vector, op.control_point1, op.control_point2, op.second_point.vector]
            g = op.geometry()
            for v, u, w in zip(got, (g.p0, g.p1, g.p2, g.p3), want):
                ctx.check(finite(v) and near((v.x, v.y), w) and near((u.x, u.y), w), '{}: {}, expected {}', where, got, want)
    return pts
