"""C25: documents painted from a scene."""
import base64, itertools, logging, math, os, re, sys, tempfile, zlib
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('MPLCONFIGDIR', os.path.join(tempfile.gettempdir(), 'mc-mpl'))
from mc.core import Space
from mc import patterns as PT
from mc.checks.C01_pattern import BASES, steps
from lxml import etree
from IntervalArithmetic import Interval2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, Font
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GraphicEngine.Painter.DxfPainter import DxfPainter
from Patro.GraphicEngine.Painter.MplPainter import MplPainter
from Patro.GraphicEngine.Painter.PdfPainter import PdfPainter
from Patro.GraphicEngine.Painter.SvgPainter import SvgPainter
from Patro.GraphicEngine.Painter.TexPainter import TexPainter
from Patro.GraphicStyle import Colors, Color, StrokeStyle
import ezdxf
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from matplotlib import colors as mpl_colors

PROPERTY = 'C25'
ASSUMPTIONS = ['documents hold texts, dots, segments and cubic curves, the items of a detail scene',
               'a dot is not drawn in a DXF document, and invisible lines are not examined there',
               'line widths are numbers, labels are letters and digits, TikZ colours have a name',
               'the line style and colour are not examined in a PDF document, which is drawn at the scale 0.7 with a margin of 1 cm']

logging.disable(logging.CRITICAL)

FONT = Font('', 16)
PAPER = ('A4', 'portrait', 10)

####################################################################################################
# the reader of each kind of document returns [kind, points in scene units, attributes] in drawing order

def read_svg(path, box, paper):
    root = etree.parse(path).getroot()
    ns = '{http://www.w3.org/2000/svg}'
    assert root.tag == ns + 'svg', root.tag
    size = [float(_) for _ in root.get('viewBox').split()]
    # the user unit is the millimetre
    if not (size[:2] == [0, 0] and root.get('width').endswith('mm') and abs(float(root.get('width')[:-2]) - size[2]) < 1e-3
            and abs(float(root.get('height')[:-2]) - size[3]) < 1e-3 and abs(size[2] - paper.width) < .01 and abs(size[3] - paper.height) < .01):
        raise AssertionError('page of the SVG document {}'.format(dict(root.attrib)))
    out = []
    for e in root.iter():
        if not isinstance(e.tag, str) or not e.tag.startswith(ns):
            continue
        tag = e.tag[len(ns):]
        g = lambda *names: [float(e.get(n)) for n in names]
        f = lambda p: (p[0]/10 + box[0], box[3] - p[1]/10)
        if tag == 'circle':
            out.append(['circle', [f(g('cx', 'cy'))], {}])
        elif tag == 'line':
            out.append(['segment', [f(g('x1', 'y1')), f(g('x2', 'y2'))], style_svg(e)])
        elif tag == 'path':
            tok = re.findall(r'[A-Za-z]|-?[0-9.]+(?:[eE][-+]?[0-9]+)?', e.get('d'))
            if [t for t in tok if t.isalpha()] != ['M', 'C'] or tok.index('C') != 3 or len(tok) != 10:
                raise AssertionError('path ' + e.get('d'))
            v = [float(t) for t in tok if not t.isalpha()]
            if e.get('fill') != 'none':
                raise AssertionError('filled curve')
            out.append(['cubic', [f(v[i:i + 2]) for i in (0, 2, 4, 6)], style_svg(e)])
        elif tag == 'text':
            out.append(['text', [f(g('x', 'y'))], {'text': e.text}])
        elif tag not in ('svg', 'style'):
            raise AssertionError('SVG element ' + tag)
    return out

def color_of(name):
    """components of a colour name or of a #rrggbb string"""
    if name is None:
        return None
    if name.startswith('#'):
        return tuple(int(name[i:i + 2], 16) for i in (1, 3, 5))
    c = Colors[name]
    return (c.red, c.green, c.blue)

def style_svg(e):
    if e.get('stroke') in (None, 'none'):
        return {'stroke': None}
    dash = e.get('stroke-dasharray')
    dash = tuple(float(_) for _ in re.split('[ ,]+', dash)) if dash not in (None, 'none') else None
    return {'stroke': color_of(e.get('stroke')), 'width': float(e.get('stroke-width')), 'dash': dash}

PDF_SCALE = .7*72/2.54
PDF_MARGIN = 72/2.54

def read_pdf(path, box, paper):
    data = open(path, 'rb').read()
    m = re.search(rb'MediaBox \[ *([-0-9.]+) ([-0-9.]+) ([-0-9.]+) ([-0-9.]+) *\]', data)
    page = [float(_) for _ in m.groups()]
    if not all(abs(a - b) < .01 for a, b in zip(page, [0, 0, paper.width*72/25.4, paper.height*72/25.4])):
        raise AssertionError('page of the PDF document {}'.format(page))
    streams = re.findall(rb'stream\r?\n(.*?)endstream', data, re.S)
    s = streams[0].strip()
    text = zlib.decompress(base64.a85decode(b'<~' + s, adobe=True)).decode('latin1')
    out = []
    shift = [0., 0.]
    stack = []
    path_pts = []
    ops = []
    args = []
    in_text = None
    f = lambda x, y: ((x + shift[0] - PDF_MARGIN)/PDF_SCALE + box[0], (y + shift[1] - PDF_MARGIN)/PDF_SCALE + box[2])
    for tok in re.findall(r'\((?:\\.|[^\\)])*\)|/?[^\s()]+', text):
        if re.fullmatch(r'[-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?', tok) or tok[0] in '(/':
            args.append(tok)
            continue
        num = [float(a) for a in args if a[0] not in '(/']
        if tok == 'q':
            stack.append(list(shift))
        elif tok == 'Q':
            shift[:] = stack.pop()
        elif tok == 'cm':
            if num[:4] != [1, 0, 0, 1]:
                raise AssertionError('transformation {}'.format(num))
            shift[0] += num[4]
            shift[1] += num[5]
        elif tok in 'mlc':
            path_pts += [tuple(num[i:i + 2]) for i in range(0, len(num), 2)]
            ops.append(tok)
        elif tok == 'n':
            path_pts, ops = [], []
        elif tok in ('S', 's', 'f', 'B', 'B*', 'b', 'b*', 'f*'):
            k = ''.join(ops)
            pts = [f(*p) for p in path_pts]
            if k == 'ml':
                out.append(['segment', pts, {}])
            elif k == 'mc':
                out.append(['cubic', pts, {}])
            elif k == 'mcccc':
                out.append(['circle', [((pts[0][0] + pts[6][0])/2, (pts[3][1] + pts[9][1])/2)], {}])
            else:
                raise AssertionError('PDF path ' + k)
            path_pts, ops = [], []
        elif tok == 'Tm':
            in_text = f(num[4], num[5])
        elif tok == 'Tj':
            out.append(['text', [in_text], {'text': args[-1][1:-1]}])
        elif tok not in ('BT', 'ET', 'Tf', 'TL', 'T*', 'rg', 'RG', 'w', 'd', 'J', 'j'):
            raise AssertionError('PDF operator ' + tok)
        args = []
    return out

DXF_DASH = {'CONTINUOUS': None, 'DASHED': 'DashLine', 'DOT': 'DotLine', 'DASHDOT': 'DashDotLine', 'DIVIDE': 'DashDotDotLine',
            'PHANTOM': 'NoPen'}

def read_dxf(path, box, paper):
    d = ezdxf.readfile(path)
    out = []
    for e in d.modelspace():
        t = e.dxftype()
        f = lambda v: (v[0]/10, v[1]/10)
        if t in ('LINE', 'SPLINE'):
            lt = e.dxf.linetype
            if lt not in d.linetypes:
                raise AssertionError('undefined line type ' + lt)
            color = None
            if e.dxf.hasattr('true_color'):
                color = tuple(ezdxf.int2rgb(e.dxf.true_color))
            elif e.dxf.color == 0:
                color = (0, 0, 0)
            style = {'linetype': lt.upper(), 'stroke': color}
        if t == 'LINE':
            out.append(['segment', [f(e.dxf.start), f(e.dxf.end)], style])
        elif t == 'SPLINE':
            knots = list(e.knots)
            if e.dxf.degree != 3 or len(e.control_points) != 4 or knots != [knots[0]]*4 + [knots[-1]]*4 or knots[0] >= knots[-1]:
                raise AssertionError('not a Bézier curve: {} {}'.format(e.dxf.degree, knots))
            out.append(['cubic', [f(p) for p in e.control_points], style])
        elif t == 'TEXT':
            p = e.dxf.align_point if e.dxf.hasattr('align_point') else e.dxf.insert
            out.append(['text', [f(p)], {'text': e.dxf.text}])
        else:
            raise AssertionError('DXF entity ' + t)
    return out

def read_tex(source, box, paper):
    names = {}
    out = []
    figure = re.findall(r'\\begin\{tikzpicture\}\[[^]]*\]\n(.*?)\\end\{tikzpicture\}', source, re.S)
    if len(figure) != 1:
        raise AssertionError('{} figures'.format(len(figure)))
    P = r'\(([^()]*)\)'
    def pos(s):
        if s in names:
            return names[s]
        x, y = s.split(',')
        return (float(x), float(y))
    for line in figure[0].splitlines():
        m = re.fullmatch(r'\\coordinate \((\w+)\) at {};'.format(P), line)
        if m:
            names[m.group(1)] = pos(m.group(2))
            continue
        m = re.fullmatch(r'\\fill \[black\] {} circle \(1pt\);'.format(P), line)
        if m:
            out.append(['circle', [pos(m.group(1))], {}])
            continue
        m = re.fullmatch(r'\\draw\[\] {} node\[[^]]*\] \{{(.*)\}};'.format(P), line)
        if m:
            out.append(['text', [pos(m.group(1))], {'text': m.group(2)}])
            continue
        m = re.fullmatch(r'\\draw\[([^]]*)\] {0} -- {0};'.format(P), line)
        if m:
            out.append(['segment', [pos(m.group(2)), pos(m.group(3))], style_tex(m.group(1))])
            continue
        m = re.fullmatch(r'\\draw\[([^]]*)\] {0} \.\. controls {0} and {0} \.\. {0};'.format(P), line)
        if m:
            out.append(['cubic', [pos(g) for g in m.groups()[1:]], style_tex(m.group(1))])
            continue
        raise AssertionError('TikZ line ' + line)
    return out

def style_tex(options):
    s = {'stroke': None, 'width': None, 'dash': None}
    for o in options.split(','):
        o = o.strip()
        if o.startswith('line width='):
            s['width'] = float(o.split('=')[1])
        elif o.startswith('dash pattern='):
            s['dash'] = tuple(float(_) for _ in re.findall(r'([0-9.]+)mm', o))
        elif o == 'draw=none':
            s['stroke'] = None
            s['none'] = True
        elif o in ('solid', ''):
            pass
        else:
            s['stroke'] = color_of(o.replace('draw=', ''))
    if s.pop('none', False):
        s['stroke'] = None
    return s

def read_mpl(axes, box, paper):
    out = []
    xl, yl = axes.get_xlim(), axes.get_ylim()
    if not (xl[0] <= box[0] and xl[1] >= box[1] and yl[0] <= box[2] and yl[1] >= box[3]):
        raise AssertionError('view {} {} of the box {}'.format(xl, yl, box))
    if axes.get_aspect() not in ('equal', 1, 1.0):
        raise AssertionError('aspect')
    for a in axes.get_children():
        if isinstance(a, matplotlib.patches.Circle):
            out.append(['circle', [tuple(a.center)], {}])
        elif isinstance(a, matplotlib.patches.PathPatch):
            v = [tuple(p) for p in a.get_path().vertices]
            codes = [int(c) for c in a.get_path().codes]
            if codes not in ([1, 2], [1, 4, 4, 4]):
                raise AssertionError('codes {}'.format(codes))
            ls = a.get_linestyle()
            rgba = a.get_edgecolor()
            if ls in ('None', 'none', ' ', '') or rgba[3] == 0 or a.get_linewidth() == 0:
                style = {'stroke': None}
            else:
                style = {'stroke': tuple(round(c*255) for c in rgba[:3]), 'width': a.get_linewidth(),
                         'dash': None if ls in ('solid', '-') else str(ls)}
            if a.get_facecolor()[3] != 0:
                raise AssertionError('filled line')
            out.append(['segment' if len(v) == 2 else 'cubic', v, style])
        elif isinstance(a, matplotlib.text.Text) and a.get_text():
            out.append(['text', [tuple(a.get_position())], {'text': a.get_text()}])
    return out

def paint(which, scene, box, paper):
    """document of the scene, read again"""
    if which == 'tex':
        p = TexPainter('/nonexistent/x.tex', scene, paper)
        p.add_detail_figure()
        return read_tex(str(p._document), box, paper)
    if which == 'mpl':
        plt.close('all')
        MplPainter(scene, paper)
        try:
            return read_mpl(plt.gcf().axes[0], box, paper)
        finally:
            plt.close('all')
    with tempfile.TemporaryDirectory(prefix='mc-') as tmp:
        path = os.path.join(tmp, 'document.' + which)
        if which == 'svg':
            SvgPainter(path, scene, paper)
            return read_svg(path, box, paper)
        if which == 'pdf':
            PdfPainter(path, scene, paper)
            return read_pdf(path, box, paper)
        if which == 'dxf':
            DxfPainter(path, scene, paper)
            return read_dxf(path, box, paper)
        if which.startswith('dxf-'): # a driver and a version
            path = os.path.join(tmp, 'document.dxf')
            version = which[4:]
            if version == 'ezdxf':
                DxfPainter(path, scene, paper, driver='ezdxf')
            else:
                DxfPainter(path, scene, paper, dxf_version=version)
                if ezdxf.readfile(path).acad_release != version:
                    raise AssertionError('version of the document')
            return read_dxf(path, box, paper)

ALL = ('svg', 'pdf', 'dxf', 'tex', 'mpl')

####################################################################################################

def want_style(style):
    st, color, width = style
    if st == 'NoPen' or color is None:
        return {'stroke': None}
    return {'stroke': color_of(color), 'width': width, 'style': st}

def compare(ctx, which, got, model, dashes=None):
    """model: items [kind, points, text or style, ...] in drawing order"""
    colours = which != 'dxf-R2000' # without true colours
    which = which.split('-')[0]
    want = [list(m) for m in model]
    if which == 'dxf':
        # dots are not drawn, invisible lines are not examined
        keep = []
        gi = 0
        want = [m for m in want if m[0] != 'circle']
        hidden = [k for k, m in enumerate(want) if m[0] in ('segment', 'cubic') and want_style(m[2])['stroke'] is None]
        if hidden and len(got) == len(want) - len(hidden):
            want = [m for k, m in enumerate(want) if k not in hidden]
    else:
        invisible = lambda kind, s: kind in ('segment', 'cubic') and 'stroke' in s and s['stroke'] is None
        want = [m for m in want if not (m[0] in ('segment', 'cubic') and want_style(m[2])['stroke'] is None)]
        got = [g for g in got if not invisible(g[0], g[2])]
    if which == 'mpl':
        # texts are drawn above
        got = [g for g in got if g[0] != 'text'] + [g for g in got if g[0] == 'text']
        want = [m for m in want if m[0] != 'text'] + [m for m in want if m[0] == 'text']
    ctx.eq([g[0] for g in got], [m[0] for m in want], '{}: drawn items'.format(which))
    tol = {'tex': .00501, 'pdf': 2e-4, 'svg': 1e-4}.get(which, 1e-6)
    for g, m in zip(got, want):
        ctx.check(len(g[1]) == len(m[1]) and all(math.dist(p, q) <= tol*2 + 1e-9*math.hypot(*q) for p, q in zip(g[1], m[1])),
                  '{}: {} drawn at {}, expected {}', which, g[0], g[1], m[1])
        if g[0] == 'text':
            ctx.eq(g[2]['text'], m[2], '{}: text'.format(which))
        elif g[0] in ('segment', 'cubic') and which != 'pdf':
            w = want_style(m[2])
            s = g[2]
            if w['stroke'] is None:
                continue
            if colours or m[2][1] == 'black':
                ctx.eq(s['stroke'], w['stroke'], '{}: colour'.format(which))
            if which == 'dxf':
                ctx.eq(DXF_DASH.get(s['linetype'], w['style'] if w['style'] == 'SolidLine' else '?') or 'SolidLine', w['style'], 'dxf: line type')
            else:
                ctx.close(s['width'], w['width'], '{}: line width'.format(which))
                ctx.check((s['dash'] is None) == (w['style'] == 'SolidLine'), '{}: dashes {} of a {}', which, s['dash'], w['style'])
                if dashes is not None:
                    dashes[w['style']] = s['dash']

####################################################################################################
# scenes

COORDS = {'A': (10., 30.), 'B1': (14.5, 37.25)}
POINTS = {'p': (12., 31.), 'q': (-3.5, 40.), 'r': (11.25, 44.)}
TRANSFORMATIONS = {
    'none': (lambda: None, lambda p: p),
    'translation': (lambda: AffineTransformation2D.Translation(Vector2D(3, -2)), lambda p: (p[0] + 3, p[1] - 2)),
    'right': (lambda: AffineTransformation2D.Translation(Vector2D(200, -150)), lambda p: (p[0] + 200, p[1] - 150)),
    'up': (lambda: AffineTransformation2D.Translation(Vector2D(-300, 400)), lambda p: (p[0] - 300, p[1] + 400)),
    'rotation': (lambda: AffineTransformation2D.Rotation(90), lambda p: (-p[1], p[0])),
}

def P(name):
    return name if name in COORDS else Vector2D(*POINTS[name])

def xy(name):
    return COORDS.get(name) or POINTS[name]

def add(scene, item):
    kind, names, extra, z, visible = item
    pts = [P(n) for n in names]
    if kind == 'text':
        it = scene.text(pts[0], extra, FONT, user_data=None)
    else:
        if isinstance(extra, list):
            style = GraphicPathStyle(stroke_style=getattr(StrokeStyle, extra[0]), stroke_color=extra[1], line_width=extra[2])
        else:
            style = GraphicPathStyle(fill_color='black')
        if kind == 'circle':
            it = scene.circle(pts[0], .3, style, user_data=None)
        elif kind == 'segment':
            it = scene.segment(*pts, style, user_data=None)
        else:
            it = scene.cubic_bezier(*pts, style, user_data=None)
    it.z_value = z
    it.visible = bool(visible)
    return it

def build(items, transformation='none', shift=(0, 0)):
    make, apply = TRANSFORMATIONS[transformation]
    scene = GraphicScene(make()) if transformation != 'none' else GraphicScene()
    for n, p in COORDS.items():
        scene.add_coordinate(n, Vector2D(*p))
    for it in items:
        add(scene, it)
    every = [apply(p) for p in list(COORDS.values()) + list(POINTS.values())]
    xs, ys = [p[0] for p in every], [p[1] for p in every]
    box = (min(xs) - shift[0], max(xs), min(ys), max(ys) + shift[1])
    scene.bounding_box = Interval2D(box[:2], box[2:])
    shown = sorted((it for it in items if it[4]), key=lambda it: it[3])
    model = [[it[0], [apply(xy(n)) for n in it[1]], it[2]] for it in shown]
    return scene, box, model

def snapshot(scene):
    b = scene.bounding_box
    return ([(type(i).__name__, [tuple(map(float, p)) if not isinstance(p, str) else p for p in i.positions], i.z_value, i.visible, i.selected,
              repr(i.path_style) if hasattr(i, 'path_style') else None) for i in scene],
            [(c.name, float(c.position.x), float(c.position.y)) for c in scene.coordinates],
            (b.x.inf, b.x.sup, b.y.inf, b.y.sup))

def run_scene(which_list, items, transformation, shift, ctx, paper=PAPER, repeat=False, dashes=None):
    scene, box, model = build(items, transformation, shift)
    paper = PaperSize(*paper)
    before = snapshot(scene)
    for which in which_list:
        got = paint(which, scene, box, paper)
        ctx.step()
        compare(ctx, which, got, model, dashes)
        ctx.eq(snapshot(scene), before, '{}: scene after painting'.format(which))
        if repeat:
            compare(ctx, which, paint(which, scene, box, paper), model)
    ctx.state([which_list, items, transformation, shift])

SOLID = ['SolidLine', 'black', 1.5]

def alphabet(full):
    segs = [['A', 'B1'], ['p', 'A'], ['q', 'r']]
    cubics = [['A', 'p', 'q', 'B1'], ['r', 'p', 'A', 'q']]
    single = ['A', 'p'] if not full else ['A', 'B1', 'p', 'q']
    for z, visible in itertools.product((0, 1), (1, 0)) if full else ((0, 1), (1, 1), (0, 0)):
        for n in single:
            yield ['circle', [n], 0, z, visible]
            yield ['text', [n], 'L' + n, z, visible]
        for s in segs if full else segs[:2]:
            yield ['segment', s, SOLID, z, visible]
        for c in cubics if full else cubics[:1]:
            yield ['cubic', c, SOLID, z, visible]

def scene_cases(tier):
    def cases():
        one = list(alphabet(True))
        small = list(alphabet(False))
        for which in ALL:
            for it in one:
                yield [[which], [it], 'none', [0, 0]]
            for pair in itertools.product(one if tier != 'quick' or which in ('svg', 'tex') else small, repeat=2):
                yield [[which], list(pair), 'none', [0, 0]]
        tiny = [i for i in small if i[1][0] == 'A']
        for which in ('svg', 'tex') if tier == 'quick' else ALL:
            for triple in itertools.product(tiny, repeat=3):
                yield [[which], list(triple), 'none', [0, 0]]
    return cases

def run_scene_case(case, ctx):
    run_scene(case[0], case[1], case[2], case[3], ctx)

STYLES = ['SolidLine', 'DashLine', 'DotLine', 'DashDotLine', 'DashDotDotLine', 'NoPen']
COLORS = ['black', 'red', 'blue', 'green', 'yellow', 'cornflowerblue', 'deeppink', '#1a2b3c', '#ffffff', None]
WIDTHS = [1.0, 3, .5, 12]

DXF_VERSIONS = ['dxf-ezdxf', 'dxf-R2000', 'dxf-R2004', 'dxf-R2007', 'dxf-R2010', 'dxf-R2013', 'dxf-R2018']

def version_cases():
    for which in DXF_VERSIONS:
        for st in STYLES:
            for color in ('black', 'deeppink', '#1a2b3c', None):
                yield [which, [['segment', ['A', 'q'], [st, color, 1.0], 0, 1], ['cubic', ['A', 'p', 'q', 'B1'], [st, color, 1.0], 0, 1], ['text', ['p'], 'L', 0, 1],
                               ['segment', ['B1', 'q'], SOLID, 1, 1], ['circle', ['A'], 0, 0, 1]]]

def style_cases():
    for which in ALL:
        for kind, names in (('segment', ['A', 'q']), ('cubic', ['A', 'p', 'q', 'B1'])):
            for st in STYLES:
                for color in COLORS:
                    if which == 'tex' and color and color.startswith('#'):
                        continue
                    for w in WIDTHS:
                        yield [which, [[kind, names, [st, color, w], 0, 1]]]
        # the style of an item does not depend on the one before
        for s1, s2 in itertools.product([['SolidLine', 'red', 1.0], ['NoPen', 'blue', 2], ['DashLine', None, 2], ['DotLine', 'green', 4]], repeat=2):
            for k1, k2 in itertools.product((('segment', ['A', 'q']), ('cubic', ['A', 'p', 'q', 'B1'])), repeat=2):
                yield [which, [[k1[0], k1[1], s1, 0, 1], [k2[0], k2[1], s2, 0, 1], ['circle', ['A'], 0, 0, 1]]]

def run_style(case, ctx):
    which, items = case
    run_scene([which], items, 'none', [0, 0], ctx)

def place_cases():
    items = [['circle', ['B1'], 0, 0, 1], ['segment', ['A', 'q'], SOLID, 0, 1], ['cubic', ['p', 'A', 'r', 'B1'], SOLID, 1, 1], ['text', ['p'], 'Label9', 0, 1]]
    for which in ALL:
        for transformation in TRANSFORMATIONS:
            for shift in ([0, 0], [2.5, 0], [0, 7], [100, 30]):
                for paper in (PAPER, ('A0', 'landscape', 0), ('B5', 'portrait', 20)):
                    yield [which, transformation, shift, list(paper), items]

def run_place(case, ctx):
    which, transformation, shift, paper, items = case
    run_scene([which], items, transformation, shift, ctx, tuple(paper), repeat=True)

def history_cases(tier):
    """several painters, one after the other, on the same scene"""
    items = [['segment', ['A', 'q'], ['DashLine', 'red', 2], 1, 1], ['cubic', ['p', 'A', 'r', 'B1'], SOLID, 0, 1], ['text', ['B1'], 'Label9', 0, 1]]
    n = 2 if tier == 'quick' else 4
    for order in itertools.product(ALL, repeat=n):
        yield [list(order), items, 'translation', [1, 1]]

####################################################################################################
# pattern programs

def sketch_cases(tier):
    ext = [s for s in steps(3, False, current=False)] if tier != 'quick' else [s for k, s in enumerate(steps(3, False, current=False)) if k % 3 == 0]
    for b in (0, 1):
        for s in ext:
            for which in ALL if tier != 'quick' else ('svg', 'pdf', 'tex', 'dxf'):
                yield [which, b, [list(s), ['line', 0, 2], ['spline', 1, 2, 30, 2, 200.5, '@m*2']]]

def run_sketch(case, ctx):
    which, base, extra = case
    program = BASES[base] + extra
    sk = PT.new_sketch()
    points, ops = [], []
    try:
        for i, s in enumerate(program):
            ops.append(PT.add_step(sk, s, points, style=PT.STYLES[1 + i % 5], color=PT.COLORS[i % 4]))
        sk.eval()
    except Exception:
        return
    if not all(PT.finite(p.vector) for p in points):
        return
    scene = sk.detail_scene()
    b = scene.bounding_box
    box = (b.x.inf, b.x.sup, b.y.inf, b.y.sup)
    model = []
    pos = {p.name: (float(p.vector.x), float(p.vector.y)) for p in points}
    for op, s in zip(ops, program):
        st = lambda w: [op.line_style.name, op.line_color.name if op.line_color.name in Colors else str(op.line_color), w]
        if s[0] in PT.POINT_KINDS:
            p = pos[op.name]
            off = op.label_offset
            label = (p[0] + off.x, p[1] - off.y)
            model.append(['circle', [p], 0])
            if off.x or off.y:
                model.append(['segment', [p, label], ['SolidLine', 'black', 2]])
            model.append(['text', [label], op.name])
            if s[0] in ('along', 'end', 'normal'):
                model.append(['segment', [pos[points[s[1]].name], p], st(1.5)])
        elif s[0] == 'line':
            model.append(['segment', [pos[points[s[1]].name], pos[points[s[2]].name]], st(3)])
        elif s[0] == 'spline':
            c1, c2 = op.control_point1, op.control_point2
            model.append(['cubic', [pos[points[s[1]].name], (float(c1.x), float(c1.y)), (float(c2.x), float(c2.y)), pos[points[s[2]].name]], st(3)])
    before = snapshot(scene)
    compare(ctx, which, paint(which, scene, box, PaperSize(*PAPER)), model)
    ctx.eq(snapshot(scene), before, 'scene after painting')
    ctx.step(len(model))
    ctx.state(case)

####################################################################################################

def tex_name_cases():
    for name in ('a', 'ab', 'abc', 'abcd', 'abcde', '.tex', 'a.tex', 'abc.tex', 'a.b', 'x.tex.y', 'dir/a', 'dir/abc.tex', 'tex', 'atex', 'long-name-for-a-file'):
        yield [name]

def run_tex_name(case, ctx):
    """the document is written where asked"""
    name, = case
    with tempfile.TemporaryDirectory(prefix='mc-') as tmp:
        os.mkdir(os.path.join(tmp, 'dir'))
        path = os.path.join(tmp, name)
        scene, box, model = build([['text', ['A'], 'Label', 0, 1]])
        p = TexPainter(path, scene, PaperSize(*PAPER))
        p.add_detail_figure()
        p._document.write()
        files = sorted(os.path.relpath(os.path.join(d, f), tmp) for d, _, fs in os.walk(tmp) for f in fs)
        stem = name[:-4] if name.endswith('.tex') else name
        ctx.eq(files, [stem + '.tex'], 'files written for {}'.format(name))
        ctx.eq(open(os.path.join(tmp, stem + '.tex')).read(), str(p._document), 'content of the file')
        ctx.eq(p._document.pdf_filename, os.path.join(tmp, stem) + '.pdf', 'name of the PDF file')
    ctx.state(case)

def rel_tex_name_cases():
    for name in ('a', 'ab', 'abc', 'abcd', 'abc.tex', 'tex', '.tex', 'x.tex.y'):
        yield [name]

def run_rel_tex_name(case, ctx):
    """names relative to the current directory, not written"""
    name, = case
    p = TexPainter(name, None, PaperSize(*PAPER))
    stem = name[:-4] if name.endswith('.tex') else name
    ctx.eq(p._document.tex_filename, stem + '.tex', 'file name')
    ctx.state(case)

def spaces(tier):
    return [
        Space('scenes', scene_cases(tier), run_scene_case, 'every scene of up to 3 items, kinds x positions x z x visible, through every painter'),
        Space('styles', style_cases, run_style, 'stroke styles x colours x widths, and pairs of styles'),
        Space('versions', version_cases, run_style, 'DXF documents of every version and driver'),
        Space('places', place_cases, run_place, 'scene transformations x bounding boxes x papers, painted twice'),
        Space('histories', lambda: history_cases(tier), run_scene_case, 'sequences of painters on one scene'),
        Space('sketches', lambda: sketch_cases(tier), run_sketch, 'detail scene of construction programs'),
        Space('tex-names', tex_name_cases, run_tex_name, 'file names of a TeX document'),
        Space('tex-relative-names', rel_tex_name_cases, run_rel_tex_name, 'relative file names of a TeX document'),
    ]
