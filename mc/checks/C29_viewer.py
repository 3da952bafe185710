"""C29: the viewer, its view of the scene and what it paints."""
import itertools, logging, math, os, tempfile
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
os.environ.setdefault('XDG_RUNTIME_DIR', tempfile.gettempdir())
os.environ.setdefault('QT_LOGGING_RULES', '*=false')
import numpy as np
from mc.core import Space
from mc.gen import seqs_upto
from mc.checks.C19_conic import ell
from IntervalArithmetic import Interval2D
from QtShim.QtCore import QObject, QPointF, QRectF, Qt
from QtShim.QtGui import QColor, QPainterPath, QPen
from PyQt5.QtGui import QGuiApplication
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, GraphicBezierStyle, Font
from Patro.GraphicEngine.Painter.QtPainter import QtPainter, QtScene, QtQuickPaintedSceneItem
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicStyle import Colors, StrokeStyle, CapStyle, JoinStyle

PROPERTY = 'C29'
ASSUMPTIONS = ['the Qt painter is replaced by a recorder of the drawing calls (the real one would only rasterise them)',
               'the viewer has a size before it is used and the drawing has an extent',
               'a scene transformation is a translation or a quarter turn, and circles and ellipses only see translations',
               'a text is black: it has no style of its own',
               'the SVG generator of Qt writes what the painter draws, and rectangle items, which no painter draws, are not covered']

logging.disable(logging.CRITICAL)

_app = None

def app():
    global _app
    if _app is None:
        _app = QGuiApplication(['mc', '-platform', 'offscreen'])
    return _app

####################################################################################################
# recorder

def q2(p):
    return (p.x(), p.y())

class Recorder:

    """Stand-in of a QPainter: keeps the primitives in device coordinates, with the pen and the brush"""

    def __init__(self):
        self.out = []
        self.pen = self.brush = self.font = None
        self.matrix = (1., 0., 0., 1., 0., 0.)
        self.stack = []

    def save(self):
        self.stack.append((self.matrix, self.pen, self.brush, self.font))

    def restore(self):
        self.matrix, self.pen, self.brush, self.font = self.stack.pop()

    def _mul(self, m):
        # m applied first
        a, b, c, d, e, f = self.matrix
        A, B, C, D, E, F = m
        self.matrix = (a*A + c*B, b*A + d*B, a*C + c*D, b*C + d*D, a*E + c*F + e, b*E + d*F + f)

    def translate(self, *args):
        x, y = q2(args[0]) if len(args) == 1 else args
        self._mul((1, 0, 0, 1, x, y))

    def rotate(self, angle):
        c, s = math.cos(math.radians(angle)), math.sin(math.radians(angle))
        self._mul((c, s, -s, c, 0, 0))

    def scale(self, x, y):
        self._mul((x, 0, 0, y, 0, 0))

    def map(self, p):
        a, b, c, d, e, f = self.matrix
        return (a*p[0] + c*p[1] + e, b*p[0] + d*p[1] + f)

    def setPen(self, pen):
        if not isinstance(pen, QPen):
            pen = QPen(pen)
        # copy: the caller can change its own
        self.pen = QPen(pen)

    def setBrush(self, brush):
        if brush == Qt.NoBrush and not isinstance(brush, QColor):
            self.brush = None
        elif isinstance(brush, QColor):
            self.brush = tuple(brush.getRgb())
        else:
            self.brush = tuple(brush.color().getRgb()) if brush.style() != Qt.NoBrush else None

    def setFont(self, font):
        self.font = (font.family(), font.pointSizeF())

    def _style(self):
        if self.pen is None or self.pen.style() == Qt.NoPen:
            pen = None
        else:
            pen = (tuple(self.pen.color().getRgb()), self.pen.widthF(), int(self.pen.style()), int(self.pen.capStyle()), int(self.pen.joinStyle()))
        return (pen, self.brush)

    def _add(self, kind, pts, extra=None):
        self.out.append((kind, [self.map(p) for p in pts], self._style(), extra))

    def drawLine(self, *args):
        pts = [q2(p) for p in args]
        self._add('path', [pts[0], pts[1]], 'ML')

    def drawPolygon(self, *args):
        self._add('polygon', [q2(p) for p in args])

    def drawPath(self, path):
        pts, codes = [], ''
        for k in range(path.elementCount()):
            e = path.elementAt(k)
            pts.append((e.x, e.y))
            codes += {QPainterPath.MoveToElement: 'M', QPainterPath.LineToElement: 'L', QPainterPath.CurveToElement: 'C',
                      QPainterPath.CurveToDataElement: 'c'}[e.type]
        self._add('path', pts, codes)

    def drawEllipse(self, center, rx, ry):
        x, y = q2(center)
        self._add('ellipse', [(x + rx*math.cos(t), y - ry*math.sin(t)) for t in np.linspace(0, 2*math.pi, 17)], abs(rx*ry))

    def drawArc(self, rect, start, span):
        r = rect.normalized()
        x, y = q2(r.center())
        rx, ry = r.width()/2, r.height()/2
        assert isinstance(start, int) and isinstance(span, int)
        # counter-clockwise on the screen
        self._add('arc', [(x + rx*math.cos(t), y - ry*math.sin(t)) for t in np.radians(np.linspace(start/16, (start + span)/16, 17))])

    def drawText(self, position, text):
        self._add('text', [q2(position)], (text, self.font))

    def drawImage(self, rect, image):
        # as Qt: a negative size stands for the size of the image
        w = rect.width() if rect.width() >= 0 else image.width()
        h = rect.height() if rect.height() >= 0 else image.height()
        self._add('image', [(rect.left(), rect.top()), (rect.left() + w, rect.top() + h)],
                  [[image.pixelColor(x, y).getRgb()[:3] for x in range(image.width())] for y in range(image.height())])

####################################################################################################
# model of the view

class View:

    def __init__(self):
        self.size = self.box = self.center = self.scale = None

    def fit(self):
        if self.size and self.box:
            xi, xs, yi, ys = self.box
            self.center = ((xi + xs)/2, (yi + ys)/2)
            self.scale = min(self.size[k]/(e*1.02) for k, e in enumerate((xs - xi, ys - yi)) if e > 0)

    def to_viewport(self, p):
        return ((p[0] - self.center[0])*self.scale + self.size[0]/2, self.size[1]/2 - (p[1] - self.center[1])*self.scale)

    def to_scene(self, p):
        return ((p[0] - self.size[0]/2)/self.scale + self.center[0], (self.size[1]/2 - p[1])/self.scale + self.center[1])

SEGMENTS = [
    [((0, 0), (10, 5)), ((2, 20), (10, 12)), ((9, 1), (9.5, 30))],
    [((-100, 40), (250, 40)), ((0, 0), (0, 60))],
    [((5, 5), (5, 25))],          # no width
]
BOXES = [(0, 10, 0, 30), (-100, 250, 0, 60), (5, 5, 5, 25)]

class SceneWith(QtScene):

    def __init__(self, transformation):
        QObject.__init__(self)
        GraphicScene.__init__(self, transformation)

def make_scene(k):
    s = QtScene()
    items = []
    for a, b in SEGMENTS[k]:
        items.append(s.segment(Vector2D(*a), Vector2D(*b), GraphicPathStyle(line_width=2.), user_data=(k, a, b)))
    b = BOXES[k]
    s.bounding_box = Interval2D(b[:2], b[2:])
    return s, items

def seg_dist(p, a, b):
    d = (b[0] - a[0], b[1] - a[1])
    t = ((p[0] - a[0])*d[0] + (p[1] - a[1])*d[1])/(d[0]**2 + d[1]**2)
    t = min(1, max(0, t))
    return math.dist(p, (a[0] + t*d[0], a[1] + t*d[1]))

OPS = [['size', 400, 300], ['size', 120, 500], ['scene', 0], ['scene', 1], ['scene', 2], ['fit'], ['zoom', .5], ['zoom', 12.5],
       ['zoom_at', 100, 50, 8], ['zoom_at', 0, 299, .25], ['pan', 10, -5], ['pan', -37.5, 80], ['pick', 200, 150], ['pick', 75, 260]]
PROBES = [(0, 0), (200, 150), (399, 3), (37.5, 260.25)]

def history_cases(depth):
    def cases():
        for prefix in ([['size', 400, 300], ['scene', 0]], [['scene', 1], ['size', 120, 500]], [['scene', 0]], [['size', 400, 300], ['fit'], ['scene', 1], ['scene', 0]]):
            for ops in seqs_upto(OPS, 0, depth):
                yield [prefix, [list(o) for o in ops]]
        # a view without scene, then with one
        for ops in seqs_upto(OPS, 0, depth - 1):
            yield [[['size', 120, 500]], [list(o) for o in ops]]
            yield [[['size', 120, 500]], [list(o) for o in ops] + [['scene', 2]]]
    return cases

def observe(ctx, item, view, scenes, current, selected, ops):
    if current is None:
        ctx.eq((item.format_coordinate(QPointF(3, 4)), item.scene_area, item.zoom), ('', None, 1), 'a view without scene after {}'.format(ops))
        return
    if view.size is None:
        return
    ctx.close(item.zoom, view.scale, 'zoom after {}'.format(ops))
    for p in PROBES:
        want = view.to_scene(p)
        text = item.format_coordinate(QPointF(*p))
        got = [float(_) for _ in text.split(',')]
        ctx.check(len(got) == 2 and all(abs(g - w) <= .000501 + 1e-9*abs(w) for g, w in zip(got, want)), 'scene position of the pixel {}: {}, expected {} after {}', p, text, want, ops)
    for p in ((0, 0), (3.5, -7), (100, 41)):
        got = item.scene_to_viewport(Vector2D(*p))
        want = view.to_viewport(p)
        ctx.check(math.dist(q2(got), want) <= 1e-6*(1 + math.hypot(*want)), 'pixel of the scene position {}: {}, expected {} after {}', p, q2(got), want, ops)
    ctx.close(item.length_scene_to_viewport(2.5), 2.5*view.scale, 'length')
    ctx.close(item.length_viewport_to_scene(2.5), 2.5/view.scale, 'length')
    area = item.scene_area
    lo, hi = view.to_scene((0, view.size[1])), view.to_scene((view.size[0], 0))
    for g, w in zip((area.x.inf, area.y.inf, area.x.sup, area.y.sup), lo + hi):
        ctx.check(abs(g - w) <= 1e-7*(1 + abs(w)), 'visible area {} after {}, expected {}', area, ops, (lo, hi))
    s, items = scenes[current]
    ctx.eq([i.selected for i in items], [i in selected for i in range(len(items))], 'selected items after {}'.format(ops))

def painted(ctx, item, view, scenes, current, selected):
    s, items = scenes[current]
    r = Recorder()
    QtPainter.paint(item, r)
    # the items come after the grid
    drawn = r.out[len(r.out) - len(items):]
    for k, (g, (a, b)) in enumerate(zip(drawn, SEGMENTS[current])):
        want = [view.to_viewport(a), view.to_viewport(b)]
        ctx.check(g[0] == 'path' and all(math.dist(p, q) <= 1e-6*(1 + math.hypot(*q)) for p, q in zip(g[1], want)), 'segment drawn at {}, expected {}', g[1], want)
        plain = ((0, 0, 0, 255), 2.0)
        ctx.check((g[2][0][:2] == plain) == (k not in selected), 'pen {} of a {} item', g[2][0], 'selected' if k in selected else 'not selected')

def run_history(case, ctx):
    prefix, ops = case
    app()
    item = QtQuickPaintedSceneItem()
    view = View()
    scenes = [make_scene(k) for k in range(3)]
    current = None
    selected = [set(), set(), set()]
    sizes = QRectF()
    done = []
    for op in prefix + ops:
        name = op[0]
        if view.size is None and name not in ('size', 'scene'):
            continue
        done.append(op)
        if name == 'size':
            new = QRectF(0, 0, op[1], op[2])
            item.geometryChanged(new, sizes)
            sizes = new
            view.size = tuple(op[1:])
            if current is not None and view.center is None:
                view.fit()
        elif name == 'scene':
            item.scene = scenes[op[1]][0]
            if current != op[1]:
                current = op[1]
                view.box = BOXES[current]
                view.fit()
            ctx.check(item.scene is scenes[op[1]][0], 'scene')
        elif name == 'fit':
            item.fit_scene()
            view.fit()
            if current is not None:
                for x, y in itertools.product(view.box[:2], view.box[2:]):
                    p = q2(item.scene_to_viewport(Vector2D(x, y)))
                    ctx.check(-1e-6 <= p[0] <= view.size[0] + 1e-6 and -1e-6 <= p[1] <= view.size[1] + 1e-6, 'corner {} outside the view at {}', (x, y), p)
        elif name == 'zoom':
            item.zoom_at_center(op[1])
            if current is not None:
                view.scale = op[1]
        elif name == 'zoom_at':
            item.zoom_at(QPointF(op[1], op[2]), op[3])
            if current is not None:
                view.center = view.to_scene(op[1:3])
                view.scale = op[3]
        elif name == 'pan':
            item.pan(QPointF(op[1], op[2]))
            if current is not None:
                view.center = (view.center[0] + op[1]/view.scale, view.center[1] + op[2]/view.scale)
        elif name == 'pick':
            if current is not None:
                p = view.to_scene(op[1:3])
                dist = sorted((seg_dist(p, a, b), k) for k, (a, b) in enumerate(SEGMENTS[current]))
                radius = 10/view.scale
                if any(abs(d - radius) < 1e-6*(1 + radius) for d, k in dist) or (len(dist) > 1 and dist[0][0] <= radius*1.5 and dist[1][0] - dist[0][0] < 1e-6):
                    done.pop()
                    continue # a tie
            item.item_at(QPointF(op[1], op[2]))
            if current is not None:
                selected[current] = {dist[0][1]} if dist[0][0] <= radius else set()
        ctx.step()
        observe(ctx, item, view, scenes, current, selected[current] if current is not None else set(), done)
    if current is not None and view.size is not None:
        painted(ctx, item, view, scenes, current, selected[current])
        if view.center:
            ctx.state((view.size, tuple(round(c, 6) for c in view.center), round(view.scale, 9), current, sorted(selected[current])))
    else:
        if view.size is not None:
            QtPainter.paint(item, Recorder())
        ctx.check(item.format_coordinate(QPointF(1, 2)) == '' if current is None else True, 'position without scene')
        ctx.state(done)

####################################################################################################
# what is painted

COORDS = {'A': (1., 2.), 'B1': (6.5, 3.)}
POINTS = {'p': (4., -1.), 'q': (-3., 5.), 'r': (2.5, 8.)}
TRANSFORMATIONS = {
    'none': (lambda: None, lambda p: p),
    'translation': (lambda: AffineTransformation2D.Translation(Vector2D(3, -2)), lambda p: (p[0] + 3, p[1] - 2)),
    'rotation': (lambda: AffineTransformation2D.Rotation(90), lambda p: (-p[1], p[0])),
}
IMAGE = np.array([[[255, 0, 0], [0, 255, 0], [0, 0, 255], [9, 9, 9]], [[1, 2, 3], [40, 50, 60], [255, 255, 255], [0, 0, 0]]], dtype=np.uint8)

def P(n):
    return n if n in COORDS else Vector2D(*POINTS[n])

def xy(n):
    return COORDS.get(n) or POINTS[n]

def add(scene, kind, names, extra, style):
    pts = [P(n) for n in names]
    if kind == 'text':
        return scene.text(pts[0], 'Label', Font('Sans', 12), user_data=None)
    if kind == 'circle':
        return scene.circle(pts[0], extra[0], style, user_data=None, start_angle=extra[1], stop_angle=extra[2])
    if kind == 'ellipse':
        return scene.ellipse(pts[0], extra[0], extra[1], extra[2], style, user_data=None, start_angle=extra[3], stop_angle=extra[4])
    if kind == 'image':
        return scene.image(pts[0], pts[1], IMAGE, user_data=None)
    if kind == 'path':
        from Patro.GraphicEngine.GraphicScene.GraphicItem import PathItem
        it = scene.add_item(PathItem, pts[0], style, None)
        k = 1
        for c in extra[0]:
            if c == 'L':
                it.line_to(pts[k]); k += 1
            elif c == 'Q':
                it.quadratic_to(pts[k], pts[k + 1]); k += 2
            elif c == 'C':
                it.cubic_to(*pts[k:k + 3]); k += 3
        if extra[1]:
            it.close()
        return it
    return {'segment': scene.segment, 'cubic': scene.cubic_bezier, 'quadratic': scene.quadratic_bezier, 'polyline': scene.polyline,
            'polygon': scene.polygon}[kind](*((pts,) if kind in ('polyline', 'polygon') else pts), style, user_data=None)

def elevate(p, q, r):
    return [tuple(p[k] + 2/3*(q[k] - p[k]) for k in (0, 1)), tuple(r[k] + 2/3*(q[k] - r[k]) for k in (0, 1)), tuple(r)]

def expected(kind, names, extra, apply, view):
    """(kind, points, extra) in the viewport"""
    pts = [view.to_viewport(apply(xy(n))) for n in names]
    if kind in ('circle', 'ellipse'):
        rx, ry, phi, a0, a1 = extra if kind == 'ellipse' else (extra[0], extra[0], 0, extra[1], extra[2])
        c = apply(xy(names[0]))
        if abs(a1 - a0) >= 360:
            return ('ellipse', [view.to_viewport(ell(c, rx, ry, phi, t)) for t in np.linspace(0, 360, 17)], rx*ry*view.scale**2)
        while a1 < a0:
            a1 += 360
        return ('arc', [view.to_viewport(ell(c, rx, ry, phi, t)) for t in np.linspace(a0, a1, 17)], None)
    if kind == 'text':
        return ('text', pts, None)
    if kind == 'image':
        return ('image', [tuple(f(p[k] for p in pts) for k in (0, 1)) for f in (min, max)], None)
    if kind == 'polygon':
        return ('polygon', pts, None)
    if kind in ('segment', 'polyline'):
        return ('path', pts, 'M' + 'L'*(len(pts) - 1))
    if kind == 'cubic':
        return ('path', pts, 'MCcc')
    if kind == 'quadratic':
        return ('path', pts[:1] + elevate(*pts), 'MCcc')
    out, codes, k = [pts[0]], 'M', 1
    for c in extra[0]:
        if c == 'L':
            out.append(pts[k]); k += 1
            codes += 'L'
        elif c == 'Q':
            out += elevate(out[-1], pts[k], pts[k + 1]); k += 2
            codes += 'Ccc'
        elif c == 'C':
            out += pts[k:k + 3]; k += 3
            codes += 'Ccc'
    if extra[1] and math.dist(out[-1], out[0]) > 1e-9:
        out.append(out[0])
        codes += 'L'
    return ('path', out, codes)

QT_STROKE = {'SolidLine': Qt.SolidLine, 'DashLine': Qt.DashLine, 'DotLine': Qt.DotLine, 'DashDotLine': Qt.DashDotLine, 'DashDotDotLine': Qt.DashDotDotLine}
QT_CAP = {'FlatCap': Qt.FlatCap, 'SquareCap': Qt.SquareCap, 'RoundCap': Qt.RoundCap}
QT_JOIN = {'MiterJoin': Qt.MiterJoin, 'BevelJoin': Qt.BevelJoin, 'RoundJoin': Qt.RoundJoin, 'SvgMiterJoin': Qt.SvgMiterJoin}

def rgba(name, alpha):
    if name.startswith('#'):
        c = tuple(int(name[i:i + 2], 16) for i in (1, 3, 5))
    else:
        c = Colors[name]
        c = (c.red, c.green, c.blue)
    return c + (round(alpha*255),)

DEFAULT = dict(stroke_style='SolidLine', stroke_color='black', stroke_alpha=1., line_width=1., fill_color=None, fill_alpha=1., cap_style='SquareCap', join_style='BevelJoin')

def make_style(spec):
    d = dict(DEFAULT, **spec)
    kw = dict(d, stroke_style=getattr(StrokeStyle, d['stroke_style']), cap_style=getattr(CapStyle, d['cap_style']), join_style=getattr(JoinStyle, d['join_style']))
    return GraphicPathStyle(**kw), d

def check_style(ctx, got, d, selected, what):
    pen, brush = got
    if d['stroke_style'] == 'NoPen' or (d['stroke_color'] is None and not selected):
        ctx.check(pen is None, '{}: pen {} of an item without stroke', what, pen)
    elif selected:
        ctx.check(pen is not None, '{}: pen of a selected item', what)
        ctx.eq(pen[2:], (int(QT_STROKE[d['stroke_style']]), int(QT_CAP[d['cap_style']]), int(QT_JOIN[d['join_style']])), what + ': pen of a selected item')
        plain = rgba(d['stroke_color'], d['stroke_alpha']) if d['stroke_color'] else None
        ctx.check(pen[0] != plain, '{}: a selected item has the colour of the other ones', what)
    else:
        ctx.check(pen is not None, '{}: no pen', what)
        w = rgba(d['stroke_color'], d['stroke_alpha'])
        ctx.check(all(abs(a - b) <= 1 for a, b in zip(pen[0], w)), '{}: pen colour {}, expected {}', what, pen[0], w)
        ctx.close(pen[1], d['line_width'], what + ': pen width')
        ctx.eq(pen[2:], (int(QT_STROKE[d['stroke_style']]), int(QT_CAP[d['cap_style']]), int(QT_JOIN[d['join_style']])), what + ': pen style')
    if d['fill_color'] is None:
        ctx.check(brush is None, '{}: brush {} of an item which is not filled', what, brush)
    else:
        w = rgba(d['fill_color'], d['fill_alpha'])
        ctx.check(brush is not None and all(abs(a - b) <= 1 for a, b in zip(brush, w)), '{}: brush {}, expected {}', what, brush, w)

ITEMS = [
    ['segment', ['A', 'q'], None], ['segment', ['p', 'B1'], None],
    ['cubic', ['A', 'p', 'q', 'B1'], None], ['quadratic', ['p', 'A', 'r'], None], ['quadratic', ['A', 'q', 'B1'], None],
    ['polyline', ['A', 'p', 'B1'], None], ['polyline', ['q', 'r'], None], ['polygon', ['A', 'p', 'B1', 'q'], None],
    ['circle', ['A'], [2.5, 0, 360]], ['circle', ['p'], [1, 30, 200]], ['circle', ['B1'], [3, 300, 45]],
    ['ellipse', ['A'], [3, 1.5, 0, 0, 360]], ['ellipse', ['q'], [3, 1, 30, 0, 360]], ['ellipse', ['p'], [2, 1, 0, 20, 110]], ['ellipse', ['r'], [2, 1, -60, 300, 100]],
    ['path', ['A', 'p', 'q'], ['LL', 0]], ['path', ['p', 'A', 'q', 'B1'], ['LQ', 1]], ['path', ['A', 'p', 'q', 'r', 'B1'], ['CL', 1]],
    ['path', ['q', 'p', 'r', 'A', 'B1', 'p', 'q'], ['QLC', 1]], ['path', ['r', 'p', 'A'], ['Q', 0]],
    ['text', ['A'], None], ['text', ['p'], None], ['image', ['A', 'r'], None],
    ['image', ['q', 'p'], None], ['image', ['A', 'B1'], None],
]

def simple(i):
    return i[0] in ('circle', 'ellipse')

VIEWS = [None, [400, 300, [['zoom', 4]]], [150, 600, [['zoom_at', 10, 20, 31]]]]

def run_paint(case, ctx):
    """items: [kind, names, extra, style, z, visible, selected]"""
    items, transformation, v = case
    app()
    make, apply = TRANSFORMATIONS[transformation]
    scene = QtScene() if transformation == 'none' else SceneWith(make())
    box = (-20, 20, -15, 25)
    scene.bounding_box = Interval2D(box[:2], box[2:])
    view = View()
    item = QtQuickPaintedSceneItem()
    w, h, ops = v or [300, 300, []]
    view.size = (w, h)
    view.box = box
    for n, p in COORDS.items():
        scene.add_coordinate(n, Vector2D(*p))
    item.geometryChanged(QRectF(0, 0, w, h), QRectF())
    item.scene = scene
    # an empty scene is not fitted
    view.fit()
    made = []
    for kind, names, extra, spec, z, visible, selected in items:
        style, d = make_style(spec)
        it = add(scene, kind, names, extra, style)
        it.z_value, it.visible, it.selected = z, bool(visible), bool(selected)
        made.append((kind, names, extra, d, z, visible, selected))
    for op in ops:
        if op[0] == 'zoom':
            item.zoom_at_center(op[1])
            view.scale = op[1]
        else:
            item.zoom_at(QPointF(op[1], op[2]), op[3])
            view.center = view.to_scene(op[1:3])
            view.scale = op[3]
    for turn in range(2):
        r = Recorder()
        QtPainter.paint(item, r)
        ctx.step()
        ctx.check(not r.stack and r.matrix == (1, 0, 0, 1, 0, 0), 'painter state left after painting')
        shown = sorted((m for m in made if m[5]), key=lambda m: m[4])
        grid = r.out[:len(r.out) - len(shown)]
        ctx.check(all(g[0] == 'path' and g[3] == 'ML' for g in grid), 'more primitives than items: {}', [g[0] for g in r.out][-len(shown) - 2:])
        for (kind, names, extra, d, z, visible, selected), g in zip(shown, r.out[len(grid):]):
            e = expected(kind, names, extra, apply, view)
            what = '{} {}'.format(kind, names)
            ctx.check(g[0] == e[0] and len(g[1]) == len(e[1]), '{}: painted as {} {}, expected {}', what, g[0], g[3], e)
            tol = view.scale*max(extra[:2])*.0023 if g[0] == 'arc' else 1e-6
            if g[0] == 'ellipse':
                # the points can start anywhere
                ctx.close(g[3], e[2], what + ': radii', 1e-6)
                bad = [p for p in g[1] if min(math.dist(p, q) for q in e[1]) > 1e-6*(1 + math.hypot(*p))]
                ctx.check(not bad, '{}: painted at {}, expected {}', what, g[1], e[1])
            else:
                ctx.check(all(math.dist(p, q) <= tol + 1e-9*math.hypot(*q) for p, q in zip(g[1], e[1])), '{}: painted at {}, expected {}', what, g[1], e[1])
            if g[0] == 'path':
                ctx.eq(g[3], e[2], what + ': commands')
            if kind == 'text':
                ctx.eq(g[3], ('Label', ('Sans', 12.0)), 'text')
                ctx.check(g[2][0] is not None and g[2][0][0] == (0, 0, 0, 255), 'text drawn with the pen {}', g[2][0])
            elif kind == 'image':
                ctx.eq(g[3], [[tuple(int(c) for c in px) for px in row] for row in IMAGE], 'pixels of the image')
            else:
                check_style(ctx, g[2], d, selected, what)
    ctx.state(case)

STYLE_SPECS = [{}, {'fill_color': 'red'}, {'stroke_style': 'NoPen', 'fill_color': 'blue'}, {'stroke_color': None}, {'stroke_style': 'DashLine', 'stroke_color': '#102030', 'line_width': 3},
               {'stroke_color': 'green', 'stroke_alpha': .5, 'fill_color': 'yellow', 'fill_alpha': .25, 'cap_style': 'RoundCap', 'join_style': 'MiterJoin'}]

def paint_cases(tier):
    def cases():
        for v in VIEWS:
            for t in TRANSFORMATIONS:
                for i in ITEMS:
                    if t == 'rotation' and simple(i):
                        continue
                    for sel in (0, 1):
                        for vis in (0, 1):
                            yield [[i + [{}, 0, vis, sel]], t, v]
        closed = [i for i in ITEMS if i[0] not in ('text', 'image')]
        # every style field
        for i in closed if tier != 'quick' else closed[::2]:
            for st in list(QT_STROKE) + ['NoPen']:
                for c in ('black', 'cornflowerblue', '#a1b2c3', None):
                    for wd in (.5, 4):
                        yield [[i + [dict(stroke_style=st, stroke_color=c, line_width=wd), 0, 1, 0]], 'none', None]
            for cap in QT_CAP:
                for join in QT_JOIN:
                    for al in (0., .5, 1.):
                        for fill in (None, 'red'):
                            for sel in (0, 1):
                                yield [[i + [dict(cap_style=cap, join_style=join, stroke_alpha=al, fill_color=fill, fill_alpha=1 - al), 0, 1, sel]], 'none', None]
        # pairs: order, and no style leaks on the next item
        some = [ITEMS[k] for k in (0, 2, 3, 7, 8, 9, 12, 16, 20, 22)] if tier == 'quick' else ITEMS
        for i1, i2 in itertools.product(some, repeat=2):
            for s1, s2 in itertools.product(STYLE_SPECS, repeat=2):
                yield [[i1 + [s1, 0, 1, 0], i2 + [s2, 0, 1, 0]], 'none', None]
            for z1, z2, v1, v2 in itertools.product((0, 1), (0, 1, -.5), (0, 1), (1,)):
                yield [[i1 + [{}, z1, v1, 0], i2 + [{'fill_color': 'red'}, z2, v2, 1], ['segment', ['A', 'B1'], None, {}, .5, 1, 0]], 'translation', None]
    return cases

def control_cases():
    for kind, names in (('cubic', ['A', 'p', 'q', 'B1']), ('quadratic', ['p', 'A', 'r'])):
        for show in (0, 1):
            for color in ('red', '#445566'):
                for t in TRANSFORMATIONS:
                    yield [kind, names, show, color, t]

def run_control(case, ctx):
    """the control points of a Bézier curve are shown on demand"""
    kind, names, show, color, t = case
    app()
    make, apply = TRANSFORMATIONS[t]
    scene = QtScene() if t == 'none' else SceneWith(make())
    scene.bounding_box = Interval2D((-20, 20), (-15, 25))
    for n, p in COORDS.items():
        scene.add_coordinate(n, Vector2D(*p))
    view = View()
    view.size, view.box = (300, 300), (-20, 20, -15, 25)
    item = QtQuickPaintedSceneItem()
    item.geometryChanged(QRectF(0, 0, 300, 300), QRectF())
    item.scene = scene
    view.fit()
    add(scene, kind, names, None, GraphicBezierStyle(show_control=bool(show), control_color=color))
    add(scene, 'segment', ['A', 'B1'], None, GraphicPathStyle(stroke_color='blue'))
    e = expected(kind, names, None, apply, view)
    r = Recorder()
    QtPainter.paint(item, r)
    n = 2 + (5 if show else 0)
    got = r.out[-n:]
    near = lambda a, b: len(a) == len(b) and all(math.dist(p, q) < 1e-6 for p, q in zip(a, b))
    ctx.check(got[0][0] == 'path' and got[0][3] == 'MCcc' and near(got[0][1], e[1]), 'curve {}', got[0])
    ctx.eq(got[0][2][0][0], (0, 0, 0, 255), 'colour of the curve')
    if show:
        ctx.check(got[1][0] == 'path' and got[1][3] == 'MLLL' and near(got[1][1], e[1]), 'control polygon {}', got[1])
        ctx.eq(got[1][2], (got[1][2][0], None), 'control polygon is not filled')
        ctx.eq(got[1][2][0][0], rgba(color, 1.), 'colour of the control polygon')
        for k in range(4):
            c = got[2 + k]
            m = (sum(p[0] for p in c[1][:-1])/16, sum(p[1] for p in c[1][:-1])/16)
            ctx.check(c[0] == 'ellipse' and math.dist(m, e[1][k]) < 1e-6, 'control point {}', c)
    ctx.check(got[-1][3] == 'ML' and got[-1][2][0][0] == rgba('blue', 1.) and got[-1][2][1] is None, 'item after the curve {}', got[-1])
    ctx.state(case)
    ctx.step()

def grid_cases():
    for w, h in ((400, 300), (120, 500), (37, 37)):
        for z in (.05, .5, 3, 20, 400):
            for x, y in ((0, 0), (100, -37), (-12345, 6789)):
                yield [w, h, z, x, y]

def run_grid(case, ctx):
    """grid lines: inside the view, across it, on round positions"""
    w, h, z, x, y = case
    app()
    scene, items = make_scene(0)
    for i in items:
        i.visible = False
    item = QtQuickPaintedSceneItem()
    item.geometryChanged(QRectF(0, 0, w, h), QRectF())
    item.scene = scene
    item.zoom_at_center(z)
    item.pan(QPointF(x, y))
    view = View()
    view.size, view.box = (w, h), BOXES[0]
    view.fit()
    view.scale = z
    view.center = (view.center[0] + x/z, view.center[1] + y/z)
    r = Recorder()
    QtPainter.paint(item, r)
    lo, hi = view.to_scene((0, h)), view.to_scene((w, 0))
    length = min(w, h)/z
    step = max(10**int(math.log10(length)), 10) if length > 0 else 10
    got = {'x': {}, 'y': {}}
    for kind, pts, style, codes in r.out:
        a, b = view.to_scene(pts[0]), view.to_scene(pts[1])
        eps = 1e-6*(1 + math.hypot(*a))
        if abs(a[0] - b[0]) <= eps:
            axis, pos, span, want = 'x', a[0], sorted((a[1], b[1])), (lo[1], hi[1])
        else:
            ctx.check(abs(a[1] - b[1]) <= eps, 'oblique grid line {} {}', a, b)
            axis, pos, span, want = 'y', a[1], sorted((a[0], b[0])), (lo[0], hi[0])
        ctx.check(all(abs(s - t) <= eps + 1e-6*abs(t) for s, t in zip(span, want)), 'grid line from {} to {}, view from {} to {}', *span, *want)
        n = pos*10/step
        ctx.check(abs(n - round(n)) <= 1e-5*(1 + abs(n)), 'grid line at {}, step {}', pos, step/10)
        got[axis].setdefault(round(n), set()).add(round(style[0][1], 3))
    for axis, k in (('x', 0), ('y', 1)):
        first, last = math.ceil(lo[k]*10/step - 1e-9), math.floor(hi[k]*10/step + 1e-9)
        ctx.eq(sorted(n for n in got[axis] if first < n < last), list(range(first + 1, last)), 'grid lines in ' + axis)
        for n, widths in got[axis].items():
            if n % 10 == 0 and first < n < last:
                ctx.check(max(widths) > .5, 'main grid line at {}', n)
            elif n % 10:
                ctx.check(max(widths) < .5, 'fine grid line at {}', n)
    ctx.state(case)
    ctx.step()

def svg_numbers(text):
    return [float(x) for x in text.replace(',', ' ').split()]

def svg_items(root):
    """Yield (kind, points, extra, group) of the primitives of a file of the SVG generator of Qt"""
    ns = '{http://www.w3.org/2000/svg}'
    for group in root.iter(ns + 'g'):
        t = group.get('transform')
        # the first items can lie in the group of the document
        a, b, c, d, e, f = svg_numbers(t[len('matrix('):-1]) if t else (1, 0, 0, 1, 0, 0)
        m = lambda p: (a*p[0] + c*p[1] + e, b*p[0] + d*p[1] + f)
        for el in group:
            tag = el.tag[len(ns):]
            if tag == 'g':
                continue
            get = lambda n: float(el.get(n))
            extra = None
            if tag in ('polyline', 'polygon'):
                pts = [tuple(svg_numbers(p)) for p in el.get('points').split()]
                kind, extra = 'path', 'M' + 'L'*(len(pts) - 1)
                if tag == 'polygon':
                    pts, extra = pts + pts[:1], extra + 'L'
            elif tag == 'path':
                kind, pts, extra = 'path', [], ''
                for word in el.get('d').split():
                    code = word[0] if word[0] in 'MLC' else 'c'
                    extra += code
                    pts.append(tuple(svg_numbers(word.lstrip('MLC'))))
            elif tag in ('circle', 'ellipse'):
                rx, ry = (get('r'), get('r')) if tag == 'circle' else (get('rx'), get('ry'))
                kind, extra = 'ellipse', rx*ry
                pts = [(get('cx') + rx*math.cos(t), get('cy') - ry*math.sin(t)) for t in np.linspace(0, 2*math.pi, 17)]
            elif tag == 'text':
                kind, pts, extra = 'text', [(get('x'), get('y'))], (el.text, el.get('fill'), el.get('font-family'))
            elif tag == 'image':
                kind, pts = 'image', [(get('x'), get('y')), (get('x') + get('width'), get('y') + get('height'))]
            else:
                raise ValueError(tag)
            yield kind, [m(p) for p in pts], extra, group

def svg_cases(tier):
    def cases():
        for t in TRANSFORMATIONS:
            for scale, dpi, box in ((10, 100, (-20, 20, -15, 25)), (1, 72, (-20.3, 20, -15, 25.75)), (37.5, 300, (0, 100, 0, 10))):
                for i in ITEMS:
                    if not (t == 'rotation' and simple(i)):
                        yield [[i + [{}, 0]], t, scale, dpi, box]
        some = ITEMS if tier != 'quick' else ITEMS[::2]
        for i1, i2 in itertools.product(some, repeat=2):
            for s1, s2 in (({}, {}), ({'stroke_style': 'NoPen', 'fill_color': 'blue'}, {'stroke_color': '#102030', 'line_width': 3})):
                for z in (0, 1):
                    yield [[i1 + [s1, z], i2 + [s2, 0], ['segment', ['A', 'B1'], None, {'stroke_color': 'red'}, .5]], 'translation', 10, 90, (-20, 20, -15, 25)]
    return cases

def run_svg(case, ctx):
    """export of a scene by the Qt painter and the SVG generator of Qt"""
    from lxml import etree
    items, t, scale, dpi, box = case
    app()
    make, apply = TRANSFORMATIONS[t]
    scene = QtScene() if t == 'none' else SceneWith(make())
    scene.bounding_box = Interval2D(box[:2], box[2:])
    for n, p in COORDS.items():
        scene.add_coordinate(n, Vector2D(*p))
    made = []
    for kind, names, extra, spec, z in items:
        style, d = make_style(spec)
        add(scene, kind, names, extra, style).z_value = z
        made.append((kind, names, extra, d, z))
    painter = QtPainter(scene)
    with tempfile.TemporaryDirectory() as directory:
        path = os.path.join(directory, 'scene.svg')
        for turn in range(2):
            painter.to_svg(path, scale=scale, dpi=dpi, title='Title', description='Text')
        root = etree.parse(path).getroot()
    ns = '{http://www.w3.org/2000/svg}'
    ctx.eq([root.findtext(ns + 'title'), root.findtext(ns + 'desc')], ['Title', 'Text'], 'title and description')
    # the page is the bounding box of the scene
    x, y, w, h = svg_numbers(root.get('viewBox'))
    for name, got, want in (('left', x, box[0]*scale), ('top', y, -box[3]*scale), ('width', w, (box[1] - box[0])*scale), ('height', h, (box[3] - box[2])*scale)):
        # Qt writes a whole number
        ctx.check(abs(got - want) <= 1.0001, 'view box {}: {} is {}, expected {}', root.get('viewBox'), name, got, want)
    for name, want in (('width', (box[1] - box[0])*scale), ('height', (box[3] - box[2])*scale)):
        got = root.get(name)
        ctx.check(got.endswith('mm') and abs(float(got[:-2]) - want*25.4/dpi) <= 25.4/dpi*1.0001, '{} {}, expected {} mm', name, got, want*25.4/dpi)
    view = View()
    view.size, view.center, view.scale = (0, 0), (0, 0), scale
    out = list(svg_items(root))
    shown = sorted(made, key=lambda m: m[4])
    # an item without pen nor brush may be missing: there is none here but lines, which are not filled
    ctx.eq(len(out), len(shown), 'number of primitives: {}'.format([o[:3] for o in out]))
    for (kind, names, extra, d, z), (gkind, gpts, gextra, group) in zip(shown, out):
        e = expected(kind, names, extra, apply, view)
        what = 'svg of {} {}'.format(kind, names)
        if e[0] == 'polygon':
            e = ('path', e[1] + e[1][:1], 'M' + 'L'*len(e[1]))
        near = lambda p, q: math.dist(p, q) <= 2e-5*(10 + math.hypot(*q))
        if e[0] == 'arc':
            # cubic curves: end points, and every point on the ellipse
            ctx.check(gkind == 'path' and set(gextra) <= set('MCc'), '{}: {}', what, gextra)
            c = view.to_viewport(apply(xy(names[0])))
            rx, ry, phi = (extra[0], extra[0], 0) if kind == 'circle' else extra[:3]
            tol = scale*max(rx, ry)*.003
            ctx.check(math.dist(gpts[0], e[1][0]) <= tol and math.dist(gpts[-1], e[1][-1]) <= tol, '{}: from {} to {}, expected {} to {}', what, gpts[0], gpts[-1], e[1][0], e[1][-1])
            samples = [gpts[0]]
            for k in range(1, len(gpts), 3):
                b = [gpts[k - 1]] + gpts[k:k + 3]
                samples += [tuple(sum(w*p[j] for w, p in zip(((1 - u)**3, 3*u*(1 - u)**2, 3*u*u*(1 - u), u**3), b)) for j in (0, 1)) for u in np.linspace(0, 1, 33)]
            fine = [view.to_viewport(ell(apply(xy(names[0])), rx, ry, phi, u)) for u in np.linspace(extra[-2], extra[-1] + (360 if extra[-1] < extra[-2] else 0), 721)]
            bad = [p for p in samples if min(math.dist(p, q) for q in fine) > 2.5*tol]
            ctx.check(not bad, '{}: points {} out of the arc', what, bad[:3])
            bad = [q for q in e[1] if min(math.dist(p, q) for p in samples) > scale*max(rx, ry)*.06]
            ctx.check(not bad, '{}: points {} of the arc missing', what, bad[:3])
        else:
            ctx.check(gkind == e[0] and len(gpts) == len(e[1]), '{}: {} {}, expected {}', what, gkind, gpts, e)
            if gkind == 'ellipse':
                ctx.close(gextra, e[2], what + ': radii', 1e-4)
                bad = [p for p in gpts if not any(near(p, q) for q in e[1])]
                ctx.check(not bad, '{}: {}, expected {}', what, gpts, e[1])
            elif gkind == 'image':
                # whole numbers
                ctx.check(all(abs(a - b) <= 1.001 for p, q in zip(gpts, e[1]) for a, b in zip(p, q)), '{}: {}, expected {}', what, gpts, e[1])
            else:
                ctx.check(all(near(p, q) for p, q in zip(gpts, e[1])), '{}: {}, expected {}', what, gpts, e[1])
            if gkind == 'path':
                ctx.eq(gextra, e[2], what + ': commands')
        if kind == 'text':
            ctx.eq(gextra, ('Label', '#000000', 'Sans'), what)
        elif kind != 'image':
            if d['stroke_style'] == 'NoPen':
                ctx.eq(group.get('stroke'), 'none', what + ': stroke')
            else:
                ctx.eq(group.get('stroke'), '#%02x%02x%02x' % rgba(d['stroke_color'], 1.)[:3], what + ': stroke')
                ctx.close(float(group.get('stroke-width')), d['line_width'], what + ': stroke width')
            if e[0] != 'arc': # the Qt painter draws arcs as lines
                ctx.eq(group.get('fill'), '#%02x%02x%02x' % rgba(d['fill_color'], 1.)[:3] if d['fill_color'] else 'none', what + ': fill')
    ctx.state(case)
    ctx.step()

def spaces(tier):
    q = tier == 'quick'
    return [
        Space('views', history_cases(3 if q else 4), run_history, 'every history of size, scene, fit, zoom, pan and pick operations of depth {}'.format(3 if q else 4)),
        Space('paint', paint_cases(tier), run_paint, 'item kinds x styles x selection x views, pairs of items'),
        Space('control', control_cases, run_control, 'control points of curves'),
        Space('svg', svg_cases(tier), run_svg, 'files of the SVG export of the Qt painter: items x transformations x scales, pairs of items'),
        Space('grid', grid_cases, run_grid, 'views x zoom x position of the grid'),
    ]
