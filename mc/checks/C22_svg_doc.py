"""C22: SVG documents of groups and shapes, read and written, against an independent walk of the tree."""
import itertools, logging, os, shutil, tempfile
from lxml import etree
from mc.core import Space
from mc.checks.C21_svg_attr import compose, mat, read_transforms, image, POINTS
from Patro.FileFormat.Svg import SvgFormat
from Patro.FileFormat.Svg.SvgFile import SvgFileInternal, SvgFileWriter
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.Painter.Paper import PaperSize

PROPERTY = 'C22'
ASSUMPTIONS = ['the state of an item is the one its reader gets with the dispatcher state merged with the item, as the importer of the examples does',
               'a dash array "none" or "inherit" is not used as an attribute of an element']

logging.disable(logging.CRITICAL)

NS = 'http://www.w3.org/2000/svg'

class Recorder(SvgFileInternal):

    def __init__(self, path, data=None):
        self.events = []
        super().__init__(path, data)

    def on_svg_root(self, svg_root):
        super().on_svg_root(svg_root)
        self.events.append(('root', svg_root))

    def on_group(self, group):
        self.events.append(('group', group.id))

    def on_graphic_item(self, item):
        state = self._dispatcher.state.clone().merge(item)
        self.events.append(('item', type(item).__name__, item.id, item, state))

# attribute sets of a node
ATTRS = {
    '': {},
    't': {'transform': 'translate(3,-2)'},
    's': {'transform': 'scale(2,3) rotate(30)'},
    'r': {'stroke': 'red', 'stroke-width': '2'},
    'n': {'stroke': 'none', 'fill': '#00ff00'},
    'y': {'style': 'stroke:blue;stroke-width:1.5; fill : none ;'},
    'b': {'stroke': 'green', 'style': 'stroke: url(a:b)', 'transform': 'matrix(1 2 3 4 5 6)'},
    'i': {'stroke': 'inherit', 'fill': 'inherit', 'stroke-linecap': 'round'},
    'l': {'stroke-linejoin': 'bevel', 'stroke-miterlimit': '8', 'stroke-dasharray': '1,2.5'},
    'x': {'style': 'transform: translate(1 2) ; stroke-linecap:square; stroke:inherit;opacity:5e-1'},
    'w': {'style': 'stroke-width:1e-1;stroke-opacity:0.5;fill-rule:evenodd;font-size:12px'},
}
DEFAULT = {'fill': None, 'stroke': None, 'stroke_width': 1, 'stroke_linecap': 'butt', 'stroke_linejoin': 'miter', 'stroke_miterlimit': 4,
           'stroke_dasharray': None, 'opacity': 1, 'stroke_opacity': 1, 'fill_rule': 'nonzero', 'font_size': None, 'fill_opacity': 1}

# the properties of the presentation attributes of SVG 1.1, with the hyphens
NAMES = '''alignment-baseline baseline-shift clip clip-path clip-rule color color-interpolation color-interpolation-filters color-profile
color-rendering cursor direction display dominant-baseline enable-background fill fill-opacity fill-rule flood-color flood-opacity font-family
font-size font-size-adjust font-stretch font-style font-variant font-weight glyph-orientation-horizontal glyph-orientation-vertical
image-rendering kerning letter-spacing lighting-color marker-end marker-mid marker-start mask opacity overflow paint-order pointer-events
shape-rendering stop-color stop-opacity stroke stroke-dashoffset stroke-linecap stroke-linejoin stroke-miterlimit stroke-opacity
stroke-width text-anchor text-decoration text-rendering unicode-bidi vector-effect visibility word-spacing writing-mode'''.split()
TEXTS = ['normal', 'none', 'inherit', 'auto', 'url(#a)', '#f00', '2', '-0.5', '1e1', '.25', '2mm', '50%', 'a b', 'None', '0']

for _name in NAMES:
    DEFAULT.setdefault(_name.replace('-', '_'), None)

SHAPE = {
    'l': ('Line', 'line', {'x1': '1', 'y1': '2', 'x2': '3', 'y2': '4'}),
    'p': ('Path', 'path', {'d': 'M1 2h3v1z'}),
    'c': ('Circle', 'circle', {'cx': '1', 'cy': '2', 'r': '3'}),
    'e': ('Ellipse', 'ellipse', {'cx': '1', 'cy': '2', 'rx': '3', 'ry': '2'}),
    'r': ('Rect', 'rect', {'x': '1', 'y': '2', 'width': '3', 'height': '2'}),
    'o': ('Polyline', 'polyline', {'points': '0,0 1,1'}),
    'g': ('Polygon', 'polygon', {'points': '0,0 1,1 1,0'}),
}
# nodes that are not drawn
NOISE = {
    '!': '<!-- <line/> -->', '?': '<?a b?>', 'd': '<defs><line id="no"/></defs>', 'T': '<title>t</title>', 'X': '<x:y xmlns:x="urn:x"><line id="no"/></x:y>',
    'M': '<metadata/>', 'S': '<style>a{}</style>', 'K': '<desc>line</desc>', 'C': '<clipPath id="z"><rect/></clipPath>', 'W': 'text',
    'f': '<f:line xmlns:f="urn:f" id="no" x1="1"/>', 'F': '<f:g xmlns:f="urn:f" transform="scale(2)"><line id="no"/></f:g>', 'n': '<path xmlns="urn:f" id="no" d="M0 0"/>',
}

def merge(state, attrs):
    s = dict(state)
    def put(name, text):
        name = name.strip().replace('-', '_')
        text = text.strip()
        if name == 'transform':
            m = s['transform']
            for n, a in read_transforms(text):
                m = compose(m, mat(n, a))
            s['transform'] = m
        elif text != 'inherit':
            if text == 'none':
                v = None
            elif name == 'stroke_dasharray':
                v = [float(x) for x in text.replace(',', ' ').split()]
            else:
                try:
                    v = float(text)
                except ValueError:
                    v = text
            s[name] = v
    for n, t in attrs.items():
        if n != 'style':
            put(n, t)
    for d in attrs.get('style', '').split(';'):
        if d.strip():
            n, t = d.split(':', 1)
            put(n, t)
    return s

def same(got, want):
    if isinstance(want, (float, int)) and want is not None:
        try:
            return abs(float(got) - want) < 1e-12
        except (TypeError, ValueError):
            return False
    if isinstance(want, list):
        return got is not None and [float(x) for x in got] == want
    return got == want

class Writer:
    """text of the document and expected events"""
    def __init__(self, prefix='', layout='', namespace=True):
        self.n = 0
        self.namespace = namespace
        self.p = prefix
        self.layout = layout
        self.expected = []
    def attrs(self, d):
        return ''.join(' {}="{}"'.format(k, v) for k, v in d.items())
    def node(self, tree, state):
        """tree: [kind, attribute set, children]"""
        kind, key, children = tree
        if kind in NOISE and kind not in SHAPE and kind != 'G':
            return NOISE[kind] + self.layout
        self.n += 1
        a = dict(ATTRS[key], id='n{}'.format(self.n))
        s = merge(state, ATTRS[key])
        if kind == 'G':
            self.expected.append(('group', a['id']))
            return '<{0}g{1}>{3}{2}</{0}g>{3}'.format(self.p, self.attrs(a), ''.join(self.node(c, s) for c in children), self.layout)
        name, tag, own = SHAPE[kind]
        self.expected.append(('item', name, a['id'], s))
        return '<{}{}{}/>{}'.format(self.p, tag, self.attrs({**own, **a}), self.layout)
    def document(self, forest, root=''):
        state = dict(DEFAULT, transform=(1, 0, 0, 1, 0, 0))
        body = ''.join(self.node(t, state) for t in forest)
        ns = 'xmlns:{}="{}"'.format(self.p[:-1], NS) if self.p else 'xmlns="{}"'.format(NS)
        if not self.namespace:
            ns = ''
        return '<{0}svg {3} version="1.1"{2}>{4}{1}</{0}svg>'.format(self.p, body, root, ns, self.layout)

def check_events(ctx, events, expected):
    got = [e[:3] if e[0] == 'item' else e[:2] for e in events[1:]]
    want = [e[:3] for e in expected]
    ctx.eq(events[0][0], 'root', 'first event')
    ctx.check(got == want, 'events {}, expected {}', got, want)
    for e, w in zip(events[1:], expected):
        if e[0] != 'item':
            continue
        state, ws = e[4], w[3]
        full = state.to_dict(all=True)
        ctx.eq(state.to_dict(), {k: v for k, v in full.items() if v is not None}, 'state as dictionary')
        copy = state.clone()
        ctx.check(copy is not state and all(getattr(copy, k) == getattr(state, k) == v for k, v in full.items() if k != 'transform'), 'copy of a state')
        ctx.check(set(ws) <= set(full), 'states {} of {}', set(ws) - set(full), e[2])
        for k, v in ws.items():
            if k == 'transform':
                for p in POINTS:
                    ctx.vec(state.transform * Vector2D(*p), image(v, p), '{}: image of {}'.format(e[2], p))
            else:
                ctx.check(same(getattr(state, k), v), '{}: state {} is {!r}, expected {!r}', e[2], k, getattr(state, k), v)
        ctx.outcome(repr(sorted(ws.items(), key=str)))

def forest(case, ctx):
    trees, prefix, layout = case
    # a document without name space, or with a prefix for the names
    w = Writer('' if prefix == '-' else prefix, layout, prefix != '-')
    text = w.document(trees)
    ctx.state(text)
    r = Recorder(None, text)
    check_events(ctx, r.events, w.expected)
    # read again: nothing is kept
    r = Recorder(None, text.encode())
    check_events(ctx, r.events, w.expected)

def rewritten(case, ctx):
    """documents written at the same place, each read when it is there"""
    d = tempfile.mkdtemp(prefix='mc-c22-')
    live = []
    try:
        path = os.path.join(d, 'a.svg')
        for trees in case:
            w = Writer()
            with open(path, 'w', encoding='utf8') as fh:
                fh.write(w.document(trees))
            live.append((Recorder(path), w))
            ctx.step()
        for r, w in live:
            check_events(ctx, r.events, w.expected)
    finally:
        shutil.rmtree(d)
    ctx.state(case)

def properties(case, ctx):
    """style declarations on two groups and the item"""
    w = Writer()
    state = dict(DEFAULT, transform=(1, 0, 0, 1, 0, 0))
    styles = [';'.join('{}:{}'.format(n, t) for n, t in declarations) for declarations in case]
    for style in styles:
        state = merge(state, {'style': style} if style else {})
    tags = ['<g{}>', '<g{}>', '<line id="n1" x1="1" y1="2" x2="3" y2="4"{}/>']
    body = ''.join(tag.format(' style="{}"'.format(s) if s else '') for tag, s in zip(tags, styles)) + '</g></g><rect id="n2" width="1" height="1"/>'
    text = '<svg xmlns="{}">{}</svg>'.format(NS, body)
    ctx.state(text)
    fresh = dict(DEFAULT, transform=(1, 0, 0, 1, 0, 0))
    check_events(ctx, Recorder(None, text).events, [('group', None)]*2 + [('item', 'Line', 'n1', state), ('item', 'Rect', 'n2', fresh)])

def root(case, ctx):
    size, box, origin = case
    ctx.state(case)
    attrs = ''
    if size:
        attrs += ' width="{}" height="{}"'.format(*size)
    if box:
        attrs += ' viewBox="{}"'.format(box)
    w = Writer()
    text = w.document([['l', '', []]], attrs)
    if origin == 'file':
        d = tempfile.mkdtemp(prefix='mc-c22-')
        try:
            path = os.path.join(d, 'a.svg')
            with open(path, 'w') as f:
                f.write('<?xml version="1.0" encoding="UTF-8"?>\n<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "http://www.w3.org/Graphics/SVG/1.1/DTD/svg11.dtd">\n' + text)
            r = Recorder(path)
        finally:
            shutil.rmtree(d)
    else:
        r = Recorder(None, '\n' + text)
    check_events(ctx, r.events, w.expected)
    ctx.eq((r.width, r.height), tuple(size) if size else (None, None), 'size')
    if box:
        x, y, W, H = [float(v) for v in box.replace(',', ' ').split()]
        b = r.view_box
        ctx.check((b.x.inf, b.x.sup, b.y.inf, b.y.sup) == (x, x + W, y, y + H), 'view box {}', b)
    else:
        ctx.check(r.view_box is None, 'view box')

SAMPLES = {
    'Line': dict(x1=1, y1=-2.5, x2=3, y2=4, stroke='red', stroke_width='2', id='l'),
    'Circle': dict(cx=1, cy=2, r=3, fill='blue', id='c'),
    'Ellipse': dict(cx=1, cy=2, rx=3, ry=2.5, transform='rotate(30)', id='e'),
    'Rect': dict(x=1, y=2, width='3', height='4', style='fill:none', id='r'),
    'Polyline': dict(points='0,0 1,1', stroke='none', id='o'),
    'Polygon': dict(points='0,0 1,1 1,0', stroke_dasharray=[1, 2.5], id='g'),
    'Path': dict(path_data='M 1 2 L 3 4 Q 1 1 0 -5 Z', stroke_linecap='round', id='p'),
}

def write(case, ctx):
    names, paper_args, transform = case
    ctx.state(case)
    paper = PaperSize(*paper_args)
    d = tempfile.mkdtemp(prefix='mc-c22-')
    try:
        path = os.path.join(d, 'b.svg')
        tree = [getattr(SvgFormat, n)(**SAMPLES[n]) for n in names]
        t = SvgFormat.TransformAttribute.from_xml(transform) if transform else None
        SvgFileWriter(path, paper, tree, t)
        with open(path, 'rb') as f:
            data = f.read()
        r = Recorder(path)
    finally:
        shutil.rmtree(d)
    e = etree.fromstring(data)
    ctx.eq(e.tag, '{%s}svg' % NS, 'root')
    ctx.eq(e.get('version'), '1.1', 'version')
    for k in ('width', 'height'):
        ctx.check(e.get(k).endswith('mm') and abs(float(e.get(k)[:-2]) - getattr(paper, k)) < 1e-3, '{} is {}', k, e.get(k))
    x, y, w, h = [float(v) for v in e.get('viewBox').split()]
    ctx.check(x == y == 0 and abs(w - paper.width) < 1e-3 and abs(h - paper.height) < 1e-3, 'view box {}', e.get('viewBox'))
    m = (1, 0, 0, 1, 0, 0)
    if transform:
        for n, a in read_transforms(transform):
            m = compose(m, mat(n, a))
    want = ([('group', None)] if transform else [])
    for n in names:
        s = merge(dict(DEFAULT, transform=m), {k.replace('_', '-'): ' '.join(map(str, v)) if isinstance(v, list) else v for k, v in SAMPLES[n].items()
                                              if k in ('transform', 'style', 'fill', 'stroke', 'stroke_width', 'stroke_dasharray', 'stroke_linecap')})
        want.append(('item', n, SAMPLES[n]['id'], s))
    check_events(ctx, r.events, want)
    for ev, n in zip([e for e in r.events if e[0] == 'item'], names):
        item = ev[3]
        for k, v in SAMPLES[n].items():
            if k in ('transform', 'path_data'):
                continue
            g = getattr(item, k)
            ctx.check(g == v or float(g) == float(v), '{} {}: {!r}, expected {!r}', n, k, g, v)
        if n == 'Path':
            ctx.check([tuple(map(float, p)) for part in item.path_data for p in [part.stop_point]] == [(3, 4), (0, -5), (1, 2)], 'path')

def shapes_of(n):
    """every ordered forest of n nodes: lists of trees, a tree being the list of its children"""
    if n == 0:
        yield []
        return
    for k in range(1, n + 1):
        for first in shapes_of(k - 1):
            for rest in shapes_of(n - k):
                yield [first] + rest

def label(tree_forest, keys, leaves):
    """every labelling, a leaf is a shape or an empty group"""
    if not tree_forest:
        yield []
        return
    first, rest = tree_forest[0], tree_forest[1:]
    kinds = ['G'] if first else ['G'] + leaves
    for kind in kinds:
        for key in keys:
            for children in label(first, keys, leaves):
                for others in label(rest, keys, leaves):
                    yield [[kind, key, children]] + others

def spaces(tier):
    T = tier == 'thorough'
    allk = list(ATTRS)
    def small():
        for n in (1, 2, 3) if T else (1, 2):
            for s in shapes_of(n):
                for f in label(s, allk, ['l']):
                    yield [f, '', '']
    def medium():
        for n in (3, 4) if T else (3,):
            for s in shapes_of(n):
                for f in label(s, ['', 's', 'r', 'y', 'b'], ['p']):
                    yield [f, '', '\n ']
    def large():
        for n in (4, 5) if T else (4,):
            for s in shapes_of(n):
                for f in label(s, ['', 'b'] + (['x'] if not T else []), ['l']):
                    yield [f, 'svg:', '']
    def rewrites():
        documents = [[]] + [f for s in shapes_of(1) for f in label(s, ['', 't', 'r', 'y'], ['l'])] + [f for s in shapes_of(2) for f in label(s, ['', 'b'], ['p'])]
        documents += [[[k, '', []]] for k in SHAPE]
        for n in (2, 3) if T else (2,):
            yield from (list(c) for c in itertools.product(documents, repeat=n))
        if not T:
            yield from (list(c) for c in itertools.product(documents[:6], repeat=3))
    kinds = [[[[k, a, []]], p, l] for k in SHAPE for a in allk for p in ('', 'svg:', 's:', '-') for l in ('', '\n')]
    kinds += [[[['G', a, [[k, b, []]]]], '', ''] for k in SHAPE for a in allk for b in allk]
    # documents with elements which are not drawn
    base = [['G', 'b', [['l', 'r', []], ['G', 't', [['p', '', []]]], ['c', 's', []]]], ['e', 'y', []]]
    def insert(f, path, noise):
        f = [[k, a, list(c)] for k, a, c in f]
        if len(path) == 1:
            return f[:path[0]] + [[noise, '', []]] + f[path[0]:]
        f[path[0]][2] = insert(f[path[0]][2], path[1:], noise)
        return f
    places = [[0], [1], [2], [0, 0], [0, 1], [0, 2], [0, 3], [0, 1, 0], [0, 1, 1]]
    noise = [[insert(base, p, n), pre, ''] for p in places for n in NOISE if n != 'X' or True for pre in ('', '-', 'svg:')]
    noise += [[insert(insert(base, p, n), q, m), '', ''] for p in places[2:5] for q in places[:4] for n in NOISE for m in NOISE]
    roots = [[s, b, o] for s in (None, ['10mm', '20mm'], ['100', '50%']) for b in (None, '0 0 10 20', '-5,2.5 10 3', '1 1 0 0', ' 0, 0, 1e2, 5 ') for o in ('data', 'file')]
    props = []
    for n in NAMES:
        for t in TEXTS:
            props += [[[[n, t]] if i == j else [] for j in range(3)] for i in range(3)]
        for t in itertools.product(TEXTS if T else TEXTS[:3] + ['2'], repeat=3):
            props.append([[[n, x]] for x in t])
    for n, m in itertools.product(NAMES, repeat=2):
        props.append([[], [[n, 'a']], [[m, '2'], [n, 'none']]])
    names = list(SAMPLES)
    writes = [[list(n), p, t] for k in (0, 1, 2) for n in itertools.product(names, repeat=k) for p, t in ((['A4', 'portrait', 10], None), (['b5', 'landscape', 0], 'translate(1,2) scale(10,-10)'))]
    writes += [[names, [n, o, 1], None] for n in ('A0', 'A3', 'C10') for o in ('portrait', 'landscape')]
    return [
        Space('small', small, forest, 'every forest of up to {} nodes, with {} attribute sets on each node'.format(3 if T else 2, len(allk))),
        Space('medium', medium, forest, 'every forest of up to {} nodes with 5 attribute sets'.format(4 if T else 3)),
        Space('large', large, forest, 'every forest of up to {} nodes with 2-3 attribute sets, prefixed names'.format(5 if T else 4)),
        Space('rewritten', rewrites, rewritten, 'every sequence of 2 and 3 small documents written and read at one place'),
        Space('kinds', kinds, forest, 'every shape with every attribute set, alone and in a group'),
        Space('noise', noise, forest, 'comments, instructions, metadata, foreign elements at every place'),
        Space('properties', props, properties, 'every presentation property x values declared on groups and items, every pair of properties'),
        Space('root', roots, root, 'sizes and view boxes, from a string and a file'),
        Space('write', writes, write, 'written documents of up to 2 items read again'),
    ]
