"""C23: graphic scene against a model of its items."""
import itertools, logging, math
from mc.core import Space
from mc.gen import seqs_upto
from mc import patterns as PT
from mc.checks import C20_path as CP
from mc.checks.C19_conic import svg_oracle, ell
from mc.checks.C01_pattern import BASES, steps
from Patro.GeometryEngine.Bezier import QuadraticBezier2D, CubicBezier2D
from Patro.GeometryEngine.Conic import Circle2D, Ellipse2D, AngularDomain
from Patro.GeometryEngine.Line import Line2D
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Polygon import Polygon2D
from Patro.GeometryEngine.Polyline import Polyline2D
from Patro.GeometryEngine.Rectangle import Rectangle2D
from Patro.GeometryEngine.Segment import Segment2D
from Patro.GeometryEngine.Spline import BSpline2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Triangle import Triangle2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene import GraphicItem as GI
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, Font
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.Pattern.SketchStyle import DetailSketchStyle
from Patro.GraphicStyle import Colors

PROPERTY = 'C23'
ASSUMPTIONS = ['the spatial index is updated (update_rtree) before a query, as the viewer does',
               'a path added as one item has no arc and no rounded corner (a known finding)',
               'a scene transformation is a translation or a rotation for the items defined by points']

logging.disable(logging.CRITICAL)

STYLE = GraphicPathStyle()

def V(p):
    return Vector2D(p[0], p[1])

def xy(v):
    return (float(v.x), float(v.y))

def near(p, q, tol=1e-6):
    return math.dist(p, q) <= tol*(1 + math.hypot(*q))

####################################################################################################
# polylines which approximate an outline, for the distances and boxes

def bez(points, n=64):
    out = []
    for k in range(n + 1):
        t = k/n
        pts = [tuple(p) for p in points]
        while len(pts) > 1:
            pts = [(a[0] + (b[0]-a[0])*t, a[1] + (b[1]-a[1])*t) for a, b in zip(pts, pts[1:])]
        out.append(pts[0])
    return out

def arc(c, rx, ry, phi, start, stop, n=180):
    span = stop - start
    if span <= 0:
        span += 360
    return [ell(c, rx, ry, phi, start + span*k/n) for k in range(n + 1)]

def seg_dist(a, b, p):
    ux, uy = b[0]-a[0], b[1]-a[1]
    n = ux*ux + uy*uy
    t = 0 if n == 0 else max(0, min(1, ((p[0]-a[0])*ux + (p[1]-a[1])*uy)/n))
    return math.hypot(p[0]-a[0]-t*ux, p[1]-a[1]-t*uy)

def dist(line, p):
    return min(seg_dist(a, b, p) for a, b in zip(line, line[1:]))

# item: [kind, points, extra]; extra: radius... start stop
def outline(item):
    kind, points, extra = item
    if kind in ('segment', 'polyline'):
        return [tuple(p) for p in points]
    if kind == 'polygon':
        return [tuple(p) for p in points] + [tuple(points[0])]
    if kind == 'rectangle':
        (a, b), (c, d) = points
        return [(a, b), (c, b), (c, d), (a, d), (a, b)]
    if kind in ('quadratic', 'cubic'):
        return bez(points)
    if kind == 'circle':
        return arc(points[0], extra[0], extra[0], 0, extra[1], extra[2])
    if kind == 'ellipse':
        return arc(points[0], *extra)
    if kind == 'text':
        return [tuple(points[0])]*2
    raise KeyError(kind)

CLASSES = {'segment': GI.SegmentItem, 'polyline': GI.PolylineItem, 'polygon': GI.PolygonItem, 'rectangle': GI.RectangleItem, 'quadratic': GI.QuadraticBezierItem,
           'cubic': GI.CubicBezierItem, 'circle': GI.CircleItem, 'ellipse': GI.EllipseItem, 'text': GI.TextItem}

def check_item(ctx, scene, got, want, style=STYLE, user_data=None, msg=''):
    kind, points, extra = want
    ctx.check(type(got) is CLASSES[kind], msg + ' is a {}, expected {}', type(got).__name__, kind)
    if user_data is not None:
        ctx.check(got.user_data is user_data, msg + ': user data')
    if kind != 'text':
        ctx.check(got.path_style is style, msg + ': style')
    ctx.check(got.scene is scene and got.visible and not got.selected and got.z_value == 0, msg + ': state of a new item')
    p = [xy(v) for v in got.casted_positions]
    ctx.check(len(p) == len(points) and all(near(a, b) for a, b in zip(p, points)), msg + ': positions {}, expected {}', p, points)
    line = outline(want)
    if kind in ('circle', 'ellipse'):
        r = (got.radius,) if kind == 'circle' else (got.radius_x, got.radius_y, got.angle)
        w = extra[:1] if kind == 'circle' else extra[:3]
        ctx.check(all(abs(a - b) < 1e-6*(1 + abs(b)) for a, b in zip(r, w)), msg + ': radii {}, expected {}', r, w)
        a, b = got.start_angle, got.stop_angle
        s, t = extra[-2:]
        closed = abs(t - s) >= 360
        ctx.eq(bool(got.is_closed), closed, msg + ': closed')
        if not closed:
            # the counterclockwise arc from start to stop
            for g, w in ((a, s), (b, t)):
                ctx.check(abs((g - w + 180) % 360 - 180) < 1e-3, msg + ': angles {} {}, expected {} {}', a, b, s, t)
    # the geometry is on the outline, the box contains it
    b = got.bounding_box
    for q in line:
        ctx.check(b.x.inf - 1e-4 <= q[0] <= b.x.sup + 1e-4 and b.y.inf - 1e-4 <= q[1] <= b.y.sup + 1e-4, msg + ': {} is out of the bounding box {}', q, b)
    soft = line + [tuple(p) for p in points] if kind in ('quadratic', 'cubic') else line
    lo = (min(q[0] for q in soft), min(q[1] for q in soft)); hi = (max(q[0] for q in soft), max(q[1] for q in soft))
    ctx.check(b.x.inf >= lo[0] - 1e-3 and b.y.inf >= lo[1] - 1e-3 and b.x.sup <= hi[0] + 1e-3 and b.y.sup <= hi[1] + 1e-3, msg + ': bounding box {} of {} {}', b, lo, hi)

def pick(ctx, scene, items, points, radii, msg=''):
    """items: [(item, model)]"""
    scene.update_rtree()
    for p in points:
        for r in radii:
            got = scene.item_at(V(p), r)
            ctx.check(all(a[0] <= b[0] for a, b in zip(got, got[1:])), msg + ': items at {} are not sorted', p)
            ids = [id(i) for d, i in got]
            ctx.check(len(set(ids)) == len(ids), msg + ': an item is picked twice')
            have = {id(i): d for d, i in got}
            for item, want in items:
                if want[0] in ('text', 'rectangle', 'path') or (want[0] == 'ellipse' and abs(want[2][-1] - want[2][-2]) < 360):
                    have.pop(id(item), None)
                    continue
                tol = {'segment': 1e-9, 'polyline': 1e-9, 'polygon': 1e-9}.get(want[0], 2e-2)
                d = dist(outline(want), p)
                if id(item) in have:
                    g = have.pop(id(item))
                    ctx.check(abs(g - d) < max(tol, 1e-6), msg + ': {} is at {} of {}, got {}', want, d, p, g)
                    ctx.check(d <= r + tol, msg + ': {} at {} of {} is picked within {}', want, d, p, r)
                else:
                    ctx.check(d > r - tol, msg + ': {} at {} of {} is not picked within {}', want, d, p, r)
            ctx.check(not have, msg + ': an item which is not in the scene is picked')

####################################################################################################

GEOMETRY = {
    'segment': lambda P, x: Segment2D(*P), 'polyline': lambda P, x: Polyline2D(*P), 'polygon': lambda P, x: Polygon2D(*P),
    'triangle': lambda P, x: Triangle2D(*P), 'rectangle': lambda P, x: Rectangle2D(*P), 'quadratic': lambda P, x: QuadraticBezier2D(*P),
    'cubic': lambda P, x: CubicBezier2D(*P),
    'circle': lambda P, x: Circle2D(P[0], x[0], domain=None if x[1:] == [0, 360] else AngularDomain(*x[1:])),
    'ellipse': lambda P, x: Ellipse2D(P[0], x[0], x[1], x[2], domain=None if x[3:] == [0, 360] else AngularDomain(*x[3:])),
}
QUERY = [(0, 0), (1, 1), (2.5, -.5), (-1, 2)]

def geometry(case, ctx):
    kind, points, extra, translation = case
    ctx.state(case)
    scene = GraphicScene() if translation is None else GraphicScene(AffineTransformation2D.Translation(V(translation)))
    dx, dy = translation or (0, 0)
    g = GEOMETRY[kind]([V(p) for p in points], extra)
    item = scene.add_geometry(g, STYLE)
    want = ['polygon' if kind == 'triangle' else kind, [(p[0] + dx, p[1] + dy) for p in points], extra]
    ctx.eq(len(scene), 1, 'number of items')
    ctx.check(item is not None and list(scene) == [item], 'the item is returned')
    check_item(ctx, scene, item, want, STYLE, g, kind)
    ctx.eq(scene.item_for_user_data(g), [item], 'item for user data')
    pick(ctx, scene, [(item, want)], QUERY, (0, .5, 1, 2.5, 20), kind)

def angles(case, ctx):
    """an arc given to the scene covers a full turn or not, whatever its sense and its origin"""
    kind, start, stop = case
    ctx.state(case)
    scene = GraphicScene()
    kw = {k: v for k, v in (('start_angle', start), ('stop_angle', stop)) if v is not None}
    item = scene.circle(V((1, 2)), 2, STYLE, None, **kw) if kind == 'circle' else scene.ellipse(V((1, 2)), 2, 1, 30, STYLE, None, **kw)
    s, t = 0 if start is None else start, 360 if stop is None else stop
    ctx.eq((item.start_angle, item.stop_angle), (s, t), 'angles')
    ctx.eq(bool(item.is_closed), abs(t - s) >= 360, 'closed')
    if abs(t - s) >= 360 and kind == 'circle':
        pick(ctx, scene, [(item, ['circle', [(1, 2)], [2, 0, 360]])], QUERY, (.5, 3), 'full circle')
    ctx.outcome(bool(item.is_closed))

def spline(case, ctx):
    points, = case
    ctx.state(case)
    scene = GraphicScene()
    s = BSpline2D([V(p) for p in points], 3)
    items = scene.add_geometry(s, STYLE)
    ctx.eq(list(scene), list(items), 'items')
    # every point of the spline is on one of the items
    lines = [bez([xy(p) for p in i.casted_positions]) for i in items]
    for i, j in zip(items, items[1:]):
        ctx.vec(i.casted_positions[-1], xy(j.casted_positions[0]), 'connected items', 1e-6)
    ctx.check(near(lines[0][0], points[0]) and near(lines[-1][-1], points[-1]), 'ends of the spline')
    ctx.eq(len(items), len(points) - 3, 'number of items')
    ctx.eq(scene.item_for_user_data(s), list(items), 'items for user data')

def path_items(parts, closed):
    fil = CP.corners(parts, closed)
    if fil is None:
        return None
    fil = {i: CP.fillet(parts[i].points[0], *d, parts[i].radius) for i, d in fil.items()}
    out = []
    for i, part in enumerate(parts):
        if part.kind == 'line':
            a, b = part.points
            if part.radius is not None:
                c, s0, s1, sense = fil[i]
                ang = lambda p: math.degrees(math.atan2(p[1]-c[1], p[0]-c[0]))
                s, t = (ang(s0), ang(s1)) if sense > 0 else (ang(s1), ang(s0))
                out.append(['circle', [c], [part.radius, s, t]])
                a = s1
            j = i + 1 if i + 1 < len(parts) else (0 if closed else None)
            if j is not None and parts[j].radius is not None and parts[j].kind == 'line':
                b = fil[j][1]
            out.append(['segment', [a, b], []])
        elif part.kind == 'arc':
            a, b = part.points
            rx, ry, phi, large, sweep = part.arc
            if rx and ry and a != b:
                sols, scaled = svg_oracle(a, b, rx, ry, phi, large, sweep)
                C, RX, RY, a1, span = sols[0]
                if scaled:
                    span = 180 if sweep else -180
                s, t = (a1, a1 + span) if span > 0 else (a1 + span, a1)
                out.append(['ellipse', [C], [RX, RY, phi, s, t]])
            else:
                out.append(['segment', [a, b], []])
        else:
            out.append([{'quad': 'quadratic', 'cubic': 'cubic'}[part.kind], part.points, []])
    return out

def build(start, commands, close):
    path = Path2D(V(start))
    kinds = []
    for i, c in enumerate(commands):
        if c[3] and (i == 0 or kinds[-1] not in CP.LINEAR):
            return None
        CP.apply_command(path, c)
        kinds.append(c[0])
    if close is not None:
        if close[0] and (not kinds or kinds[-1] not in CP.LINEAR) or close[1] and (not kinds or kinds[0] not in CP.LINEAR):
            return None
        path.close(radius=close[0], close_radius=close[1])
    return path

def path(case, ctx):
    start, commands, close = case
    ctx.state(case)
    parts = CP.interpret(tuple(start), commands, close)
    want = path_items(parts, close is not None)
    if want is None:
        return
    p = build(start, commands, close)
    if p is None:
        return
    for how in ('geometry', 'segments', 'data', 'item'):
        scene = GraphicScene()
        data = object()
        if how == 'geometry':
            items = scene.add_geometry(p, STYLE)
            ud = p
        elif how == 'segments':
            items = scene.add_path(p, STYLE)
            ud = p
        elif how == 'data':
            items = scene.add_path(p, STYLE, data)
            ud = data
        else:
            if any(q.kind == 'arc' or q.radius for q in parts):
                continue
            item = scene.add_path(p, STYLE, data, as_segments=False)
            ctx.eq(list(scene), [item], 'one item')
            ctx.check(type(item) is GI.PathItem and item.user_data is data and item.path_style is STYLE, 'path item')
            ctx.eq(bool(item.is_closed), close is not None, 'closed')
            ctx.vec(item.position, start, 'start')
            got = [[xy(v) for v in s.positions] for s in item]
            ctx.check([len(g) for g in got] == [len(q.points) - 1 for q in parts] and all(near(a, b) for g, q in zip(got, parts) for a, b in zip(g, q.points[1:])),
                      'segments of the path item {}, expected {}', got, [q.points[1:] for q in parts])
            g = item.geometry
            CP.compare(ctx, g, parts, g.is_closed, 'geometry of the path item')
            box = item.bounding_box
            continue
        got = list(scene)
        ctx.check(items is None or list(items) == got, how + ': returned items')
        ctx.check(len(got) == len(want), how + ': {} items, expected {}', [type(i).__name__ for i in got], want)
        for i, w in zip(got, want):
            check_item(ctx, scene, i, w, STYLE, ud, '{}: item of {}'.format(how, w))
        ctx.eq(scene.item_for_user_data(ud), got, how + ': items for user data')
        if how == 'geometry':
            pick(ctx, scene, list(zip(got, want)), QUERY[:2], (.5, 3), 'path')
    ctx.outcome([w[0] for w in want])

PENS = {'A': (1., 2.), 'B1': (-3., .5), 'p': (4., 4.), 'q': (0., -2.), 'r': (1., 2.)}

def pen(case, ctx):
    """a path item drawn with the methods of a pen, from named coordinates and vectors"""
    start, moves, closed, translation = case
    ctx.state(case)
    scene = GraphicScene() if translation is None else GraphicScene(AffineTransformation2D.Translation(V(translation)))
    dx, dy = translation or (0, 0)
    for n in ('A', 'B1'):
        scene.add_coordinate(n, V(PENS[n]))
    P = lambda n: n if n in ('A', 'B1') else V(PENS[n])
    at = lambda n: (PENS[n][0] + dx, PENS[n][1] + dy)
    data = object()
    item = scene.add_item(GI.PathItem, P(start), STYLE, data)
    ctx.eq((len(item), list(item), bool(item.is_closed)), (0, [], False), 'a new path item')
    commands = []
    for i, names in enumerate(moves):
        (item.line_to, item.quadratic_to, item.cubic_to)[len(names) - 1](*map(P, names))
        commands.append(['lqc'[len(names) - 1], at(names[0]) if len(names) == 1 else [at(n) for n in names], 1, None])
        ctx.eq(len(item), i + 1, 'number of segments')
    if closed:
        item.close()
    ctx.eq(bool(item.is_closed), closed, 'closed')
    segs = list(item)
    ctx.check(all(item[i] is s for i, s in enumerate(segs)) and item[1:] == segs[1:], 'segments by index')
    ctx.eq([[p if isinstance(p, str) else xy(p) for p in s.positions] for s in segs], [[n if n in ('A', 'B1') else PENS[n] for n in names] for names in moves], 'positions of the segments')
    ctx.check(item.scene is scene and item.path_style is STYLE and item.user_data is data, 'state')
    ctx.eq([xy(v) for v in item.casted_positions], [at(start)], 'start')
    ctx.raises(NotImplementedError, lambda: item.arc_to(P('p')), 'arc')
    ctx.eq(list(item), segs, 'a refused command')
    end = at(moves[-1][-1])
    close = [None, None] if closed and end != at(start) else None
    parts = CP.interpret(at(start), commands, close)
    for g in (item.geometry, item.get_geometry()):
        CP.compare(ctx, g, parts, close is not None, 'geometry')
    line = []
    for q in parts:
        line += bez(q.points) if len(q.points) > 2 else list(map(tuple, q.points))
    b = item.bounding_box
    soft = [tuple(p) for q in parts for p in q.points]
    for q in line:
        ctx.check(b.x.inf - 1e-4 <= q[0] <= b.x.sup + 1e-4 and b.y.inf - 1e-4 <= q[1] <= b.y.sup + 1e-4, '{} is out of the bounding box {}', q, b)
    ctx.check(b.x.inf >= min(q[0] for q in soft) - 1e-3 and b.y.inf >= min(q[1] for q in soft) - 1e-3 and b.x.sup <= max(q[0] for q in soft) + 1e-3 and b.y.sup <= max(q[1] for q in soft) + 1e-3,
              'bounding box {} of {}', b, soft)

def pen_cases(tier):
    names = list(PENS)
    one = [[n] for n in names] + [['p', n] for n in names] + [['A', 'q']] + [['q', 'p', n] for n in names] + [['B1', 'q', 'A']]
    for start in names:
        for closed in (False, True):
            for t in (None, [5, -3]):
                for a in one:
                    yield [start, [a], closed, t]
                    for b in one:
                        yield [start, [a, b], closed, t]
                        if tier == 'thorough':
                            for c in one[::3]:
                                yield [start, [a, b, c], closed, t]

def refused(case, ctx):
    kind, = case
    ctx.state(case)
    scene = GraphicScene()
    item = scene.add_geometry(Segment2D(V((0, 0)), V((1, 2))), STYLE)
    what = {'line': lambda: Line2D(V((0, 0)), V((1, 1))), 'number': lambda: 3, 'vector': lambda: V((1, 1)), 'none': lambda: None, 'box': lambda: object()}[kind]()
    ctx.raises(NotImplementedError, lambda: scene.add_geometry(what, STYLE), 'geometry {}'.format(kind))
    ctx.eq((list(scene), scene.item_for_user_data(what) or []), ([item], []), 'scene after a refusal')
    scene.update_rtree()
    ctx.eq([i for d, i in scene.item_at(V((0, 0)), 5)], [item], 'picked after a refusal')

def bezier_path(case, ctx):
    degree, n = case
    ctx.state(case)
    scene = GraphicScene()
    points = [(k, k*k % 5) for k in range(n)]
    data = object()
    if degree not in (1, 2, 3) or (n - 1) % degree:
        ctx.raises(ValueError, lambda: scene.bezier_path([V(p) for p in points], degree, STYLE, user_data=data), 'wrong number of points or degree')
        ctx.eq(len(scene), 0, 'an item is left')
        return
    items = scene.bezier_path([V(p) for p in points], degree, STYLE, user_data=data)
    ctx.eq(list(scene), list(items), 'items')
    ctx.eq(len(items), (n - 1)//degree, 'number of items')
    for i, item in enumerate(items):
        check_item(ctx, scene, item, [{1: 'segment', 2: 'quadratic', 3: 'cubic'}[degree], points[i*degree:(i+1)*degree+1], []], STYLE, data, 'piece')

####################################################################################################
# histories

DATA = [object(), object()]

def history(case, ctx):
    ops = case
    ctx.state(case)
    scene = GraphicScene()
    coords = {}
    items = [] # [item, model, data, visible, z, selected, names]
    def positions(entry):
        kind, pts, extra = entry['model']
        return [kind, [coords[p] if isinstance(p, str) else tuple(p) for p in pts], extra]
    for op in ops:
        name = op[0]
        if name == 'add':
            kind, pts, extra, data, lazy = op[1:]
            if any(isinstance(p, str) and p not in coords for p in pts):
                continue
            P = [p if isinstance(p, str) else V(p) for p in pts]
            ud = None if data is None else DATA[data]
            if kind == 'segment':
                it = scene.segment(*P, STYLE, user_data=ud)
            elif kind == 'circle':
                it = scene.circle(*P, extra[0], STYLE, user_data=ud)
            elif kind == 'polygon':
                it = scene.polygon(P, STYLE, user_data=ud)
            elif kind == 'text':
                it = scene.text(*P, 'text', None, user_data=ud)
            items.append({'item': it, 'model': [kind, pts, extra], 'data': data, 'visible': True, 'z': 0, 'selected': False})
            if lazy:
                it.bounding_box # known before the index is updated
        elif name == 'coord':
            scene.add_coordinate(op[1], V(op[2]))
            coords[op[1]] = tuple(op[2])
            for e in items:
                if op[1] in e['model'][1]:
                    e['item'].dirty = True
        elif name == 'index':
            scene.update_rtree()
        elif name == 'unselect':
            scene.unselect_items()
            for e in items:
                e['selected'] = False
        elif op[1] < len(items):
            e = items[op[1]]
            if name == 'remove':
                scene.remove_item(e['item'])
                items.remove(e)
            elif name == 'hide':
                e['item'].visible = e['visible'] = not e['visible']
            elif name == 'z':
                e['item'].z_value = e['z'] = op[2]
            elif name == 'select':
                e['item'].selected = e['selected'] = True
        ctx.step()
    ctx.eq(len(scene), len(items), 'number of items')
    ctx.check([id(i) for i in scene] == [id(e['item']) for e in items], 'items, in order')
    want = [e['item'] for e in sorted((e for e in items if e['visible']), key=lambda e: e['z'])]
    ctx.check([id(i) for i in scene.z_value_iter()] == [id(i) for i in want], 'drawing order')
    ctx.check({id(i) for i in scene.selected_items} == {id(e['item']) for e in items if e['selected']} and
              len(scene.selected_items) == sum(e['selected'] for e in items), 'selected items')
    for k, d in enumerate(DATA):
        got = scene.item_for_user_data(d) or []
        ctx.check([id(i) for i in got] == [id(e['item']) for e in items if e['data'] == k], 'items for user data {}', k)
    ctx.check(sorted(c.name for c in scene.coordinates) == sorted(coords), 'coordinates')
    for n, p in coords.items():
        ctx.vec(scene.coordinate(n).position, p, 'coordinate')
        ctx.vec(scene.cast_position(n), p, 'cast coordinate')
    models = [(e['item'], positions(e)) for e in items]
    for i, m in models:
        p = [xy(v) for v in i.casted_positions]
        ctx.check(all(near(a, b) for a, b in zip(p, m[1])), 'positions of {}: {}', m, p)
    pick(ctx, scene, models, [(0, 0), (2, 1)], (.1, 2, 9), 'history')
    pick(ctx, scene, models, [(0, 0)], (1,), 'history, index updated again')
    ctx.outcome([m for i, m in models])

####################################################################################################

def sketch(case, ctx):
    """the scene of the detail mode"""
    base, extra_steps, zero = case
    program = BASES[base] + [list(s) for s in extra_steps]
    sk = PT.new_sketch()
    points = []
    ops = []
    for i, s in enumerate(program):
        n = len(points)
        ops.append(PT.add_step(sk, s, points, style=PT.STYLES[1 + i % 5], color=PT.COLORS[i % 4]))
        if zero and len(points) > n:
            points[-1].label_offset.x = 0 if zero == 1 else .5
            points[-1].label_offset.y = 0
    try:
        sk.eval()
    except Exception:
        return
    pts = []
    for s, op in zip(program, ops):
        if s[0] in PT.POINT_KINDS:
            v = op.vector
            if not PT.finite(v):
                return
            pts.append(xy(v))
    ctx.state(case)
    style = DetailSketchStyle(point_size=.3, line_width=4, construction_line_width=2.5, label_line_width=.75, font_size=11, point_color='blue')
    scene = sk.detail_scene(style=style)
    box, sbox = scene.bounding_box, sk.bounding_box
    ctx.check(all(abs(a - b) < 1e-9 for a, b in zip((box.x.inf, box.x.sup, box.y.inf, box.y.sup), (sbox.x.inf, sbox.x.sup, sbox.y.inf, sbox.y.sup))), 'bounding box')
    ctx.check(sorted(c.name for c in scene.coordinates) == sorted(p.name for p in points), 'coordinates')
    got = list(scene)
    k = 0
    n = 0
    for i, (s, op) in enumerate(zip(program, ops)):
        mine = scene.item_for_user_data(op) or []
        want = []
        if s[0] in PT.POINT_KINDS:
            p = pts[n]
            ctx.vec(scene.coordinate(op.name).position, p, 'coordinate ' + op.name)
            want.append(['circle', [p], [.3, 0, 360]])
            off = op.label_offset
            label = (p[0] + off.x, p[1] - off.y)
            if off.x or off.y:
                want.append(['segment', [p, label], 'label'])
            want.append(['text', [label], []])
            if s[0] in ('along', 'end', 'normal'):
                want.append(['segment', [pts[s[1]], p], 'construction'])
            n += 1
        elif s[0] == 'line':
            want.append(['segment', [pts[s[1]], pts[s[2]]], 'line'])
        elif s[0] == 'spline':
            c = [xy(op.control_point1), xy(op.control_point2)]
            want.append(['cubic', [pts[s[1]], c[0], c[1], pts[s[2]]], 'line'])
        ctx.check(len(mine) == len(want), '{}: {} items, expected {}', s, [type(i).__name__ for i in mine], want)
        for it, w in zip(mine, want):
            extra = w[2] if isinstance(w[2], list) else []
            check_item(ctx, scene, it, [w[0], w[1], extra], getattr(it, 'path_style', None), op, str(s))
            if w[0] == 'text':
                ctx.eq(it.text, op.name, 'label')
            if w[0] == 'text':
                ctx.eq(it.font.point_size, 11, 'font of the label')
            elif w[0] == 'circle':
                ctx.check(it.path_style.fill_color == Colors.blue, 'colour of the point {}', it.path_style)
            if w[2] == 'label':
                ctx.eq(it.path_style.line_width, .75, 'line width of the label')
            elif isinstance(w[2], str):
                st = it.path_style
                ctx.check(st.stroke_style == op.line_style and st.stroke_color == op.line_color, '{}: style {}', s, st)
                ctx.eq(st.line_width, 4 if w[2] == 'line' else 2.5, 'line width of {}'.format(s))
        k += len(want)
    ctx.eq(len(got), k, 'number of items')

####################################################################################################

def lost(case, ctx):
    """a path added as one item keeps its arcs and its rounded corners"""
    start, commands, close = case
    p = build(start, commands, close)
    scene = GraphicScene()
    item = scene.add_path(p, STYLE, as_segments=False)
    parts = CP.interpret(tuple(start), commands, close)
    want = [q for i in path_items(parts, close is not None) for q in outline(i)]
    for part in item.geometry:
        g = part.geometry
        for k in range(9):
            t = k/8
            q = bez([xy(v) for v in g.points], 8)[k]
            ctx.check(min(seg_dist(a, b, q) for a, b in zip(want, want[1:])) < 1e-2, '{} is not on the outline of the path', q)

def spaces(tier):
    T = tier == 'thorough'
    grid = [(x, y) for x in (0, 1, 3) for y in (0, 2)]
    geo = []
    for t in (None, [1, -2]):
        geo += [['segment', list(p), [], t] for p in itertools.product(grid, repeat=2) if p[0] != p[1]]
        geo += [['rectangle', [a, b], [], t] for a in grid[:3] for b in ((4, 5), (3, 3))]
        for n, kinds in ((3, ('triangle', 'polyline', 'polygon', 'quadratic')), (4, ('polyline', 'polygon', 'cubic'))):
            for kind in kinds:
                for p in itertools.permutations(grid, n) if T or n == 3 else itertools.permutations(grid[:5], n):
                    if kind == 'triangle' and (p[1][0]-p[0][0])*(p[2][1]-p[0][1]) == (p[1][1]-p[0][1])*(p[2][0]-p[0][0]):
                        continue
                    geo.append([kind, list(p), [], t])
        for c in ((0, 0), (1, 2)):
            for r in (1, 2.5):
                geo += [['circle', [c], [r, a, b], t] for a, b in ((0, 360), (0, 90), (30, 200), (200, 300), (90, 270), (10, 11))]
                geo += [['ellipse', [c], [r, ry, phi, a, b], t] for ry in (1, .5) for phi in (0, 30) for a, b in ((0, 360), (0, 90), (30, 200), (200, 300))]
    turns = (None, -540, -360, -180, -90, -30, 0, 30, 90, 180, 270, 330, 359, 360, 361, 450, 540, 720)
    angs = [[k, a, b] for k in ('circle', 'ellipse') for a in turns for b in turns if a != b]
    spl = [[list(p)] for n in (4, 5) + ((6,) if T else ()) for p in itertools.permutations(grid, n)]
    base = [c for c in CP.LINES[:1] + CP.LINES[3:4] + CP.LINES[5:7] + CP.COMPASS[5:6] + CP.CURVES + CP.ARCS[:6] + CP.ARCS[8:]] + \
        [['l', [2, 1], 0, .5], ['h', -2, 0, 1], ['V', -3, 0, .5], ['v', 5, 1, .5], ['l', [-1, 3], 0, .5]]
    few = [base[0], base[3], base[6], base[8], base[9], base[12], base[13], base[14]] + base[-5:-2]
    def paths():
        for n in (1, 2):
            for p in itertools.product(base, repeat=n):
                for z in (None, [None, None], [.5, None], [.5, .25]):
                    yield [[1, 2], list(p), z]
    paths3 = lambda: ([[1, 2], list(p), z] for p in itertools.product(base if T else few, repeat=3) for z in (None, [None, None], [.5, .25]))
    ops = [['add', 'segment', [[0, 0], [2, 0]], [], 0, 0], ['add', 'segment', ['A', [2, 2]], [], 1, 1], ['add', 'circle', ['A'], [1, 0, 360], 0, 0],
           ['add', 'polygon', [[1, 1], [3, 1], [2, 4]], [], None, 1], ['add', 'text', [[1, 1]], [], 1, 0], ['coord', 'A', [1, 0]], ['coord', 'A', [5, 5]],
           ['index'], ['remove', 0], ['remove', 1], ['hide', 0], ['z', 0, 2], ['z', 1, -1.5], ['select', 0], ['select', 1], ['unselect']]
    hist = lambda: seqs_upto(ops, 1, 5 if T else 4)
    adds = [o for o in ops if o[0] in ('add', 'coord', 'index', 'remove')]
    hist5 = lambda: seqs_upto(adds, 5, 6 if T else 5)
    prefix = [ops[5], ops[0], ops[1], ops[2]]
    hist6 = lambda: (prefix + list(p) for p in seqs_upto([o for o in ops if o[0] != 'add'] + [['remove', 2], ['hide', 1], ['hide', 2], ['z', 2, 2], ['z', 0, .5], ['z', 1, .25], ['select', 2]], 1, 4 if T else 3))
    sks = [[b, [s], z] for b in range(len(BASES)) for z in (0, 1, 2) for s in steps(3, T)]
    sks += [[0, [s1, s2], 0] for s1 in steps(3, False) if s1[0] in PT.POINT_KINDS for s2 in steps(4, False) if T or 3 in PT.step_points(s2)]
    losts = [[[0, 0], [['h', 3, 0, None], ['v', 3, 0, 1]], None], [[0, 0], [['h', 3, 0, None], ['a', [[2, 2], 2, 2, 0, 0, 1], 0, None], ['v', 3, 0, None]], None]]
    return [
        Space('geometry', geo, geometry, 'every primitive over a small grid of points, in a plain and a translated scene, picked around'),
        Space('angles', angs, angles, 'circles and ellipses of the scene x start and stop angles'),
        Space('spline', spl, spline, 'B-splines of 4 to {} points of a grid'.format(6 if T else 5)),
        Space('path', paths, path, 'paths of up to 2 commands of {} x 4 closures, as items and as one item'.format(len(base))),
        Space('path3', paths3, path, 'paths of 3 commands'),
        Space('pen', lambda: pen_cases(tier), pen, 'path items drawn with a pen: 1 to {} lines and curves between named coordinates and vectors, open and closed'.format(3 if T else 2)),
        Space('refused', [[k] for k in ('line', 'number', 'vector', 'none', 'box')], refused, 'objects which cannot be drawn'),
        Space('bezier_path', [[d, n] for d in (0, 1, 2, 3, 4) for n in range(1, 14)], bezier_path, 'degrees x numbers of points'),
        Space('history', hist, history, 'every sequence of up to {} of {} operations'.format(5 if T else 4, len(ops))),
        Space('history-build', hist5, history, 'every sequence of {} building operations'.format(6 if T else 5)),
        Space('history-state', hist6, history, 'every sequence of up to {} operations on a scene of 3 items'.format(4 if T else 3)),
        Space('sketch', sks, sketch, 'scenes of the detail mode of every construction of one and two steps'),
        Space('single-item', losts, lost, 'paths with arcs and corners as one item (known finding)'),
    ]
