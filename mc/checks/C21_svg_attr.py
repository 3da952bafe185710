"""C21: SVG path data, transform lists, lengths and shape attributes against independent readers."""
import itertools, logging, math
from lxml import etree
from mc.core import Space
from mc.gen import seqs_upto
from mc.checks.C20_path import interpret, compare, corners, xy, apply_command, fillet, svg_oracle, LINES, COMPASS, CURVES, ARCS, ROUND, CLOSE
from Patro.FileFormat.Svg import SvgFormat
from Patro.GeometryEngine.Path import Path2D
from Patro.GeometryEngine.Transformation import AffineTransformation2D
from Patro.GeometryEngine.Vector import Vector2D

PROPERTY = 'C21'
ASSUMPTIONS = ['path data numbers up to 1e9',
               'path data of one sub-path (a second moveto and commands after closepath are a known finding)',
               'the reference reader of the path data follows the grammar of SVG 1.1, with the longest match rule',
               'rectangles with rounded corners have equal radii not larger than the half sides']

logging.disable(logging.CRITICAL)

DATA = SvgFormat.PathDataAttribute
TRANSFORM = SvgFormat.TransformAttribute
ERRORS = (ValueError, NameError)

####################################################################################################
# Reference readers (character level, no regular expression)

class Malformed(Exception):
    pass

NARGS = {'m': 2, 'l': 2, 'h': 1, 'v': 1, 'c': 6, 's': 4, 'q': 4, 't': 2, 'a': 7}
WSP = ' \t\r\n'
DIGITS = '0123456789'

class Reader:
    def __init__(self, text):
        self.text, self.i = text, 0
    def peek(self):
        return self.text[self.i] if self.i < len(self.text) else ''
    def wsp(self):
        while self.peek() and self.peek() in WSP:
            self.i += 1
    def comma_wsp(self):
        """True if there is a comma"""
        self.wsp()
        if self.peek() == ',':
            self.i += 1
            self.wsp()
            return True
        return False
    def digits(self):
        n = 0
        while self.peek() and self.peek() in DIGITS:
            self.i += 1
            n += 1
        return n
    def number(self):
        start = self.i
        if self.peek() and self.peek() in '+-':
            self.i += 1
        n = self.digits()
        if self.peek() == '.':
            mark = self.i
            self.i += 1
            k = self.digits()
            if not n and not k:
                self.i = start
                raise Malformed
            n += k
        if not n:
            self.i = start
            raise Malformed
        mark = self.i
        if self.peek() and self.peek() in 'eE':
            self.i += 1
            if self.peek() and self.peek() in '+-':
                self.i += 1
            if not self.digits():
                self.i = mark
        return float(self.text[start:self.i])
    def flag(self):
        c = self.peek()
        if c and c in '01':
            self.i += 1
            return float(c)
        raise Malformed

def read_path(text):
    """[(letter, arguments)] or Malformed"""
    r = Reader(text)
    out = []
    r.wsp()
    while r.peek():
        letter = r.peek()
        r.i += 1
        low = letter.lower()
        if low == 'z':
            if not out:
                raise Malformed
            out.append((letter, []))
            r.wsp()
            continue
        if low not in NARGS or (not out and low != 'm'):
            raise Malformed
        r.wsp()
        first = True
        while True:
            mark = r.i
            comma = False if first else r.comma_wsp()
            if not first and not comma and not (r.peek() and r.peek() in DIGITS + '+-.'):
                break
            args = []
            for k in range(NARGS[low]):
                if k:
                    r.comma_wsp()
                args.append(r.flag() if low == 'a' and k in (3, 4) else r.number())
            out.append((letter, args))
            if first and low == 'm':
                letter = 'l' if letter == 'm' else 'L'
            first = False
    return out

def read_transforms(text):
    names = {'matrix': (6,), 'rotate': (1, 3), 'scale': (1, 2), 'skewX': (1,), 'skewY': (1,), 'translate': (1, 2)}
    r = Reader(text)
    out = []
    r.wsp()
    while r.peek():
        name = ''
        while r.peek().isalpha():
            name += r.peek()
            r.i += 1
        if name not in names:
            raise Malformed
        r.wsp()
        if r.peek() != '(':
            raise Malformed
        r.i += 1
        r.wsp()
        args = [r.number()]
        while True:
            r.wsp()
            if r.peek() == ')':
                break
            r.comma_wsp()
            args.append(r.number())
        r.i += 1
        if len(args) not in names[name]:
            raise Malformed
        out.append((name, args))
        comma = False
        r.wsp()
        while r.peek() == ',':
            comma = True
            r.comma_wsp()
        if comma and not r.peek():
            raise Malformed
    return out

####################################################################################################

def to_program(commands):
    """start and commands of the path oracle, None if there are several sub-paths"""
    start = tuple(commands[0][1])
    out = []
    close = None
    for letter, a in commands[1:]:
        low = letter.lower()
        ab = int(letter != low)
        if close is not None or low == 'm':
            if low == 'z':
                continue
            return None
        if low == 'z':
            close = [None, None]
        elif low in 'hv':
            out.append([low, a[0], ab, None])
        elif low in 'lt':
            out.append([low, a, ab, None])
        elif low in 'csq':
            out.append([low, [a[i:i+2] for i in range(0, len(a), 2)], ab, None])
        else:
            out.append(['a', [a[5:7], a[0], a[1], a[2], a[3], a[4]], ab, None])
    return start, out, close

def near(u, v, exact):
    """same coordinate, up to the rounding of one operation when exact"""
    return abs(u - v) <= (1e-13*abs(v) + 1e-300 if exact else 1e-9*(1 + abs(v)))

def same_outline(ctx, p, q, msg, exact=False):
    ctx.eq(len(p), len(q), msg + ': number of parts')
    ctx.eq(bool(p.is_closed), bool(q.is_closed), msg + ': closed')
    ctx.check(all(near(x, y, exact) for x, y in zip(xy(p.p0), xy(q.p0))), msg + ': start {}, expected {}', p.p0, q.p0)
    for i, (a, b) in enumerate(zip(p, q)):
        ga, gb = [xy(x) for x in a.points], [xy(x) for x in b.points]
        ctx.check(len(ga) == len(gb) and all(near(x, y, exact) for u, v in zip(ga, gb) for x, y in zip(u, v)), msg + ': part {}: {}, expected {}', i, ga, gb)
        if hasattr(b, 'svg_arguments') or hasattr(a, 'svg_arguments'):
            ctx.check(hasattr(a, 'svg_arguments') and hasattr(b, 'svg_arguments') and
                      all(near(u, v, exact) for u, v in zip(a.svg_arguments, b.svg_arguments)), msg + ': arc of part {}', i)

def check_path(ctx, text, formats=()):
    try:
        commands = read_path(text)
    except Malformed:
        ctx.raises(ERRORS, lambda: DATA.from_xml(text), 'malformed path data {!r}'.format(text))
        ctx.outcome('malformed')
        return
    if not commands:
        ctx.check(DATA.from_xml(text) is None, 'empty path data')
        return
    program = to_program(commands)
    if program is None or any(abs(x) > 1e9 for l, a in commands for x in a):
        ctx.outcome('sub-paths')
        return
    start, cmds, close = program
    parts = interpret(start, cmds, close)
    path = DATA.from_xml(text)
    ctx.vec(path.p0, start, 'start')
    compare(ctx, path, parts, close is not None, repr(text))
    ctx.outcome([p.kind for p in parts])
    for other in formats:
        same_outline(ctx, DATA.from_xml(other), path, 'same path written {!r}'.format(other))
    # written and read again
    element = SvgFormat.Path(etree.Element('path', d=text))
    same_outline(ctx, element.path_data, path, 'path element', exact=True)
    xml = element.to_xml()
    ctx.eq(xml.tag, 'path', 'tag')
    try:
        again = read_path(xml.get('d'))
    except Malformed:
        ctx.check(False, 'the path data are written {!r}', xml.get('d'))
    p2 = to_program(again)
    ctx.check(p2 is not None, 'the path data are written {!r}', xml.get('d'))
    compare(ctx, path, interpret(*p2), p2[2] is not None, 'written as {!r}'.format(xml.get('d')))
    same_outline(ctx, SvgFormat.Path(xml).path_data, path, 'written as {!r} and read'.format(xml.get('d')), exact=True)

def F(x):
    return repr(x) if isinstance(x, float) else str(x)

def layout(tokens, style):
    """tokens: [(letter, args)]"""
    if style == 'canonical':
        return ' '.join(' '.join([l] + [F(x) for x in a]) for l, a in tokens)
    if style == 'lines':
        return '\n' + ' \n\t'.join(l + '\n' + ' ,\t'.join(F(x) for x in a) for l, a in tokens) + '\n'
    if style == 'commas':
        return ''.join(l + ','.join(F(x) for x in a) for l, a in tokens)
    # compact: no repeated letter, no superfluous separator
    out = ''
    last = None
    for l, a in tokens:
        implicit = last is not None and l == {'m': 'l', 'M': 'L'}.get(last, last) and a
        if not implicit:
            out += l
            last = l
            glue = False
        else:
            glue = True
        dot = '.' in out.split(',')[-1].split(' ')[-1] and glue and '.' in F(prev)
        for k, x in enumerate(a):
            s = F(x)
            if s.startswith('0.'):
                s = s[1:]
            if s.startswith('-0.'):
                s = '-' + s[2:]
            flag_before = l in 'aA' and k in (4, 5)
            if glue and not (s[0] in '-' or flag_before or (s[0] == '.' and dot)):
                out += ' '
            out += s
            glue = True
            dot = '.' in s
            prev = x
    return out

ALPHABET = {
    'l': [[2, 1], [-1.5, .5]], 'h': [[3]], 'v': [[-.5]], 'c': [[1, 2, 3, 0, 4, 4]], 's': [[2, -1, 3, .5]], 'q': [[1, 2, 3, 0]], 't': [[2, -1]],
    'a': [[3, 2, 30, 0, 1, 2, 1], [1, 1, 0, 1, 0, .5, -.5]],
}
TOKENS = [(l if not ab else l.upper(), a) for l, aa in ALPHABET.items() for a in aa for ab in (0, 1)]

def sequence(case, ctx):
    move, tokens, end = case
    tokens = [(l, a) for l, a in [move] + list(tokens)] + ([(end, [])] if end else [])
    text = layout(tokens, 'canonical')
    ctx.state(text)
    check_path(ctx, text, [layout(tokens, s) for s in ('lines', 'commas', 'compact')])

def strings(case, ctx):
    prefix, first, alphabet, n = case
    for seq in itertools.product(alphabet, repeat=n):
        text = prefix + first + ''.join(seq)
        ctx.state(text)
        check_path(ctx, text)

def numbers(case, ctx):
    letter, tokens, sep = case
    text = 'M' + sep.join(['0', '0']) + letter + sep.join(tokens)
    ctx.state(text)
    check_path(ctx, text)

def outline(parts, closed):
    """the lines and circular corners of a path, in order; None if a corner is degenerate"""
    fil = corners(parts, closed)
    if fil is None:
        return None
    fil = {i: fillet(parts[i].points[0], *d, parts[i].radius) for i, d in fil.items()}
    out = []
    for i, part in enumerate(parts):
        if i in fil and i:
            c, a, b, s = fil[i]
            out.append(('corner', a, b, c, part.radius, s))
        if part.kind == 'arc':
            out.append(('arc', part.points[0], part.points[1], part.arc))
            continue
        points = list(part.points)
        if part.kind == 'line':
            if i in fil:
                points[0] = fil[i][2]
            j = i + 1 if i + 1 < len(parts) else 0
            if (j or closed) and j in fil:
                points[-1] = fil[j][1]
        out.append((part.kind, *points))
    if 0 in fil:
        c, a, b, s = fil[0]
        out.append(('corner', a, b, c, parts[0].radius, s))
    return out

def rounded(case, ctx):
    """a path, with its round corners, written as path data"""
    commands, close = case
    start = [1, 2]
    for i, c in enumerate(commands):
        if c[3] and not (i and commands[i-1][0] not in 'qctsa'):
            return # the library refuses it: C20
    if close is not None and (close[0] and commands[-1][0] in 'qctsa' or close[1] and commands[0][0] in 'qctsa'):
        return
    parts = interpret(tuple(start), commands, close)
    want = outline(parts, close is not None)
    if want is None:
        return
    ctx.state(case)
    path = Path2D(Vector2D(*start))
    for c in commands:
        apply_command(path, c)
    if close is not None:
        path.close(*close)
    by_hand = DATA.from_geometry(path)
    item = SvgFormat.Path()
    item.path_data = path
    texts = [item.to_xml().get('d'), DATA.to_xml(path), DATA.to_xml(by_hand)]
    ctx.check(texts[1:] == texts[:1]*2, 'path data {}', texts)
    got, cur, first = [], None, None
    for letter, args in read_path(texts[0]):
        ctx.check(letter in 'MLQCAZ', 'command {} of {}', letter, texts[0])
        pts = [tuple(args[k:k+2]) for k in range(0, len(args), 2)]
        if letter == 'M':
            ctx.check(cur is None, 'sub-paths')
            cur = first = pts[0]
            continue
        if letter == 'Z':
            got.append(('line', cur, first))
            cur = first
        elif letter == 'A':
            got.append(('arc', cur, tuple(args[5:]), args[:5]))
            cur = tuple(args[5:])
        else:
            got.append(({'L': 'line', 'Q': 'quad', 'C': 'cubic'}[letter], cur, *pts))
            cur = pts[-1]
    close_to = lambda p, q: math.dist(p, q) < 1e-6*(1 + math.hypot(*q))
    # a line without length is not drawn
    null = lambda e: e[0] == 'line' and close_to(e[1], e[2])
    got = [e for e in got if not null(e)]
    want = [e for e in want if not null(e)]
    ctx.eq(len(got), len(want), 'number of edges of {!r}'.format(texts[0]))
    for g, w in zip(got, want):
        msg = '{} of {!r}, expected {}'.format(g, texts[0], w)
        ctx.check(g[0] == ('arc' if w[0] == 'corner' else w[0]), msg)
        if w[0] == 'corner':
            ctx.check(close_to(g[1], w[1]) and close_to(g[2], w[2]), msg)
            rx, ry, phi, large, sweep = g[3]
            ctx.close(rx, w[4], msg); ctx.close(ry, w[4], msg)
            sols, scaled = svg_oracle(g[1], g[2], rx, ry, phi, large, sweep)
            ctx.check(math.dist(sols[0][0], w[3]) < 1e-4*(1 + math.hypot(*w[3])), msg + ': centre')
            ctx.eq((bool(sweep), bool(large)), (w[5] > 0, False), msg + ': way round')
        elif w[0] == 'arc':
            ctx.check(close_to(g[1], w[1]) and close_to(g[2], w[2]) and all(abs(a - b) < 1e-9 for a, b in zip(g[3], w[3])), msg)
        else:
            ctx.check(len(g) == len(w) and all(close_to(a, b) for a, b in zip(g[1:], w[1:])), msg)
    ctx.outcome(tuple(e[0] for e in want))

def rounded_cases(tier):
    alln = LINES[:9] + COMPASS[:5] + CURVES[:4] + ARCS[:3] + ROUND
    for a in alln:
        for z in CLOSE:
            for b in alln:
                yield [[a, b], z]
                if tier == 'thorough':
                    for c in ROUND + CURVES[:2] + LINES[5:8]:
                        yield [[a, b, c], z]
    few = [LINES[0], LINES[3], LINES[6], CURVES[0], ['l', [2, 1], 0, .5], ['h', -2, 0, 1], ['V', -3, 0, .5], ['north_east', 2, 0, .5]]
    for p in itertools.product(few, repeat=3):
        for z in CLOSE:
            yield [list(p), z]

def precise(case, ctx):
    """an arc is written as it is read, whatever the magnitude of its numbers"""
    text = 'M1 2A' + ' '.join(case)
    ctx.state(text)
    path = DATA.from_xml(text)
    part = path[0]
    ctx.check(all(near(u, float(v), True) for u, v in zip(part.svg_arguments, case)), 'radii')
    xml = SvgFormat.Path(etree.Element('path', d=text)).to_xml()
    ctx.eq([(l, len(a)) for l, a in read_path(xml.get('d'))][:2], [('M', 2), ('A', 7)], 'written {!r}'.format(xml.get('d')))
    for u, v in zip(read_path(xml.get('d'))[1][1], case):
        ctx.check(near(u, float(v), True), 'written {!r}, {!r} expected', xml.get('d'), v)
    same_outline(ctx, SvgFormat.Path(xml).path_data, path, 'written as {!r} and read'.format(xml.get('d')), exact=True)

def precise_attribute(case, ctx):
    """numbers of every magnitude are read, written and read again"""
    kind, text = case
    ctx.state(case)
    v = float(text)
    if kind == 'matrix':
        m = 'matrix({0} 2 3 {0} 5 {0})'.format(text)
        item = SvgFormat.Group(etree.Element('g', transform=m))
        out = read_transforms(item.to_xml().get('transform'))
        ctx.check(len(out) == 1 and out[0][0] == 'matrix' and all(near(a, b, True) for a, b in zip(out[0][1], [v, 2, 3, v, 5, v])), '{} is written {}', m, out)
    elif kind == 'points':
        item = SvgFormat.Polygon(etree.Element('polygon', points='0,1 {0},2 3,{0}'.format(text)))
        out = item.to_xml().get('points').replace(',', ' ').split()
        ctx.check(len(out) == 6 and all(near(float(a), b, True) for a, b in zip(out, [0, 1, v, 2, 3, v])), 'points of {} are written {}', text, out)
    elif kind == 'stroke-dasharray':
        item = SvgFormat.Line(etree.Element('line', **{kind: '1, {}'.format(text)}))
        out = item.to_xml().get(kind).replace(',', ' ').split()
        ctx.check(len(out) == 2 and near(float(out[1]), v, True), 'dash {} is written {}', text, out)
    else:
        cls, name = kind
        tag = SHAPES[cls][0]
        item = getattr(SvgFormat, cls)(etree.Element(tag, **{name: text}))
        if name != 'stroke-width':
            ctx.check(near(float(getattr(item, name.replace('-', '_'))), v, True), '{} of {!r}', name, text)
        out = item.to_xml().get(name)
        ctx.check(near(float(out), v, True), '{}={!r} is written {!r}', name, text, out)

def subpaths(case, ctx):
    """the outline of every sub-path is read"""
    text, want = case
    path = DATA.from_xml(text)
    got = [[xy(part.start_point), xy(part.stop_point)] for part in path]
    ctx.check(len(got) == len(want) and all(math.dist(g, w) < 1e-6 for a, b in zip(got, want) for g, w in zip(a, b)),
              'segments read from {!r}: {}, expected {}', text, got, want)

####################################################################################################

def mat(name, a):
    a = list(a)
    if name == 'matrix':
        return tuple(a)
    if name == 'translate':
        return (1, 0, 0, 1, a[0], a[1] if len(a) > 1 else 0)
    if name == 'scale':
        return (a[0], 0, 0, a[1] if len(a) > 1 else a[0], 0, 0)
    if name == 'rotate':
        c, s = math.cos(math.radians(a[0])), math.sin(math.radians(a[0]))
        x, y = a[1:] if len(a) > 1 else (0, 0)
        return (c, s, -s, c, x - c*x + s*y, y - s*x - c*y)
    t = math.tan(math.radians(a[0]))
    return (1, 0, t, 1, 0, 0) if name == 'skewX' else (1, t, 0, 1, 0, 0)

def compose(m, n):
    """m after n, SVG order a b c d e f"""
    a, b, c, d, e, f = m
    A, B, C, D, E, G = n
    return (a*A + c*B, b*A + d*B, a*C + c*D, b*C + d*D, a*E + c*G + e, b*E + d*G + f)

def image(m, p):
    return (m[0]*p[0] + m[2]*p[1] + m[4], m[1]*p[0] + m[3]*p[1] + m[5])

POINTS = ((0, 0), (1, 0), (0, 1), (3, -2))

def same_transform(ctx, t, m, msg):
    ctx.check(isinstance(t, AffineTransformation2D), msg + ': {}', type(t))
    for p in POINTS:
        ctx.vec(t * Vector2D(*p), image(m, p), msg + ': image of {}'.format(p))

def check_transform(ctx, text):
    try:
        transforms = read_transforms(text)
    except Malformed:
        ctx.raises(ERRORS, lambda: TRANSFORM.from_xml(text), 'malformed transform list {!r}'.format(text))
        ctx.outcome('malformed')
        return
    m = (1, 0, 0, 1, 0, 0)
    for name, a in transforms:
        m = compose(m, mat(name, a))
    ctx.outcome([round(x, 6) for x in m])
    t = TRANSFORM.from_xml(text)
    same_transform(ctx, t, m, repr(text))
    group = SvgFormat.Group(etree.Element('g', transform=text))
    xml = group.to_xml()
    try:
        again = read_transforms(xml.get('transform'))
    except Malformed:
        ctx.check(False, 'the transform is written {!r}', xml.get('transform'))
    w = (1, 0, 0, 1, 0, 0)
    for name, a in again:
        w = compose(w, mat(name, a))
    ctx.check(all(abs(x - y) <= 1e-12*max(1, abs(y)) + 1e-9 for x, y in zip(w, m)), 'the transform is written {!r}, expected {}', xml.get('transform'), m)
    same_transform(ctx, SvgFormat.Group(xml).transform, m, 'read again')

def transforms(case, ctx):
    seq, joins, inner = case
    text = ''
    for i, (name, args) in enumerate(seq):
        if i:
            text += joins
        a, b, c = inner
        text += name + a + '(' + b + c.join(str(x) for x in args) + b + ')'
    ctx.state(text)
    check_transform(ctx, text)

def damaged(case, ctx):
    kind, text = case
    read = check_transform if kind == 'transform' else check_path
    alphabet = '(),1- .et' if kind == 'transform' else 'MLzaqe1.,- '
    ctx.state(text)
    read(ctx, text)
    for i in range(len(text) + 1):
        read(ctx, text[:i])
        if i < len(text):
            read(ctx, text[:i] + text[i+1:])
        for c in alphabet:
            read(ctx, text[:i] + c + text[i:])
            if i < len(text):
                read(ctx, text[:i] + c + text[i+1:])

####################################################################################################

def lengths(case, ctx):
    number, unit = case
    text = number + unit
    ctx.state(text)
    want = float(number)/(100 if unit == '%' else 1)
    for cls in (SvgFormat.Line, SvgFormat.Group, SvgFormat.Path):
        item = cls(etree.Element(cls.__tag__, **{'stroke-width': text}))
        v = item.stroke_width
        ctx.close(float(v), want, 'value of {!r}'.format(text), 1e-12)
        if unit not in ('', '%'):
            ctx.eq(v.unit, unit, 'unit of {!r}'.format(text))
            ctx.eq(str(v), str(float(number)) + unit, 'string')
        out = item.to_xml().get('stroke-width')
        ctx.check(out.endswith(unit) if unit else not out[-1].isalpha() and out[-1] != '%', 'written {!r}', out)
        ctx.close(float(out[:len(out)-len(unit)]), float(number), 'written {!r}'.format(out), 1e-12)

def rect(case, ctx):
    x, y, w, h, rx, ry = case
    ctx.state(case)
    attributes = {k: v for k, v in dict(x=x, y=y, width=w, height=h, rx=rx, ry=ry).items() if v is not None}
    item = SvgFormat.Rect(etree.Element('rect', **attributes))
    fx, fy = float(x or 0), float(y or 0)
    W, H = float(w), float(h)
    r = rx if ry is None else ry
    r = float(r) if r is not None else 0
    if (rx is not None and not float(rx)) or (ry is not None and not float(ry)):
        r = 0
    r = r or None
    cmd = [['h', W, 0, None], ['v', H, 0, r], ['h', -W, 0, r]]
    compare(ctx, item.geometry, interpret((fx, fy), cmd, [r, r]), True, 'rectangle')
    xml = item.to_xml()
    ctx.eq(xml.tag, 'rect', 'tag')
    ctx.eq(sorted(xml.keys()), sorted(attributes), 'written attributes')
    for k, v in attributes.items():
        ctx.close(float(xml.get(k)), float(v), 'attribute ' + k)
    compare(ctx, SvgFormat.Rect(xml).geometry, interpret((fx, fy), cmd, [r, r]), True, 'rectangle read again')

SHAPES = {
    'Line': ('line', ['x1', 'y1', 'x2', 'y2']), 'Circle': ('circle', ['cx', 'cy', 'r']), 'Ellipse': ('ellipse', ['cx', 'cy', 'rx', 'ry']),
    'Rect': ('rect', ['x', 'y', 'width', 'height', 'rx', 'ry']), 'Polyline': ('polyline', ['points']), 'Polygon': ('polygon', ['points']),
    'Text': ('text', ['x', 'y', 'dx', 'dy']), 'Group': ('g', []), 'Path': ('path', ['d', 'pathLength']),
}
VALUES = {'points': '0,0 1,0 2.5,-3', 'd': 'M0 0h1v2', 'transform': 'translate(1 2)', 'id': 'a1', 'style': 'fill:red', 'fill': '#ff0000', 'stroke': 'red',
          'stroke-width': '2mm', 'stroke-linecap': 'round', 'stroke-linejoin': 'bevel', 'stroke-miterlimit': '2.5', 'stroke-dasharray': '1,2.5 3'}
NUMBERS = {'x1': '1', 'y1': '-2.5', 'x2': '3e1', 'y2': '.25', 'cx': '5', 'cy': '-6', 'r': '7.5', 'rx': '1.5', 'ry': '2.5', 'x': '-1', 'y': '4', 'width': '10',
           'height': '20', 'dx': '1', 'dy': '2', 'pathLength': '12.5'}
COMMON = ['id', 'style', 'transform']
PAINT = ['fill', 'stroke', 'stroke-width', 'stroke-linecap', 'stroke-linejoin', 'stroke-miterlimit', 'stroke-dasharray']

def canonical(name, text):
    """comparable value of an attribute"""
    if name == 'transform':
        m = (1, 0, 0, 1, 0, 0)
        for n, a in read_transforms(text):
            m = compose(m, mat(n, a))
        return [round(x, 9) for x in m]
    if name == 'd':
        s, c, z = to_program(read_path(text))
        return [[[(round(x, 9), round(y, 9)) for x, y in p.points] for p in interpret(s, c, z)], z]
    if name == 'stroke-width':
        return (float(text[:-2]), text[-2:])
    if name == 'stroke-dasharray':
        return [float(x) for x in text.replace(',', ' ').split()]
    if name in NUMBERS or name == 'stroke-miterlimit':
        return float(text)
    return text

def attributes(case, ctx):
    cls, names = case
    ctx.state(case)
    tag, own = SHAPES[cls]
    attrs = {n: {**VALUES, **NUMBERS}[n] for n in names}
    e = etree.Element(tag, **attrs)
    for turn in range(2):
        item = getattr(SvgFormat, cls)(e)
        e = item.to_xml()
        ctx.eq(e.tag, tag, 'tag')
        ctx.eq(sorted(e.keys()), sorted(attrs), 'attributes')
        for n in names:
            ctx.check(canonical(n, e.get(n)) == canonical(n, attrs[n]), '{}: written {!r}, read {!r}', n, e.get(n), attrs[n])
    py = {'d': 'path_data', 'pathLength': 'path_length'}
    for n in own + COMMON:
        v = getattr(item, py.get(n, n.replace('-', '_')))
        if n not in names:
            ctx.check(v is None, 'missing attribute {} is {!r}', n, v)
        elif n in NUMBERS:
            ctx.close(float(v), float(attrs[n]), n)

# elements with the same text are independent: what is read from one does not follow the edits of the other

TEXTS = {'d': ['M0 0h1v2', 'M 1 2 L 3 4 C 5 6 7 8 9 10', 'm1,1q2,3 4,5a3 3 0 0 1 1 2'], 'transform': ['translate(1 2)', 'scale(2) rotate(30)', 'matrix(1 2 3 4 5 6)'],
         'points': ['0,0 1,0 2.5,-3', '1 2 3 4'], 'stroke-dasharray': ['1,2.5 3', '4 5']}

def edit(name, value, k):
    if name == 'd':
        if k == 0:
            value.line_to((7, 8))
        elif k == 1:
            value.apply_transformation(AffineTransformation2D.Scale(3, 2))
        else:
            value.close()
    elif name == 'transform':
        value.array[0, 2 - k] += 5
    elif isinstance(value, list):
        if k == 2:
            del value[0]
        else:
            value.append(value[0])

def shared(case, ctx):
    cls, name, text, history = case
    ctx.state(case)
    tag = SHAPES[cls][0]
    python = {'d': 'path_data'}.get(name, name.replace('-', '_'))
    live = []
    def read(t):
        return getattr(SvgFormat, cls)(etree.Element(tag, **{name: t}))
    wanted = {t: read(t).to_xml().get(name) for t in TEXTS[name]}
    for t, w in wanted.items():
        ctx.check(canonical(name, w) == canonical(name, t), '{}: written {!r}, read {!r}', name, w, t)
    for op in history:
        ctx.step()
        if op == 'read':
            live.append([read(text), wanted[text]])
        elif op == 'other':
            t = TEXTS[name][TEXTS[name].index(text) - 1]
            live.append([read(t), wanted[t]])
        elif live:
            edit(name, getattr(live[-1][0], python), op)
            # the edited one is what it is
            live[-1][1] = live[-1][0].to_xml().get(name)
        for i, (item, w) in enumerate(live):
            ctx.eq(item.to_xml().get(name), w, '{} of element {} after {}'.format(name, i, op))

def shared_cases(tier):
    for cls, name in (('Path', 'd'), ('Path', 'transform'), ('Line', 'transform'), ('Group', 'transform'), ('Polyline', 'points'), ('Polygon', 'points'), ('Line', 'stroke-dasharray')):
        for text in TEXTS[name]:
            for h in seqs_upto(['read', 'other', 0, 1, 2], 1, 3 if tier == 'quick' else 4):
                if h[0] in ('read', 'other'):
                    yield [cls, name, text, list(h)]

####################################################################################################

FUNCS = [['translate', [3]], ['translate', [3, -2]], ['scale', [2]], ['scale', [2, -.5]], ['rotate', [90]], ['rotate', [-30, 1, 2]],
         ['skewX', [30]], ['skewY', [-45]], ['matrix', [1, 2, 3, 4, 5, 6]], ['matrix', [0, -1, 1, 0, .5, 0]]]

def spaces(tier):
    T = tier == 'thorough'
    moves = [('M', [1, 2]), ('m', [-.5, 3])]
    def seqs():
        for n in (0, 1, 2, 3) if T else (0, 1, 2):
            for t in itertools.product(TOKENS, repeat=n):
                for m in moves if n < 3 else moves[:1]:
                    for end in ('', 'z', 'Z') if n < 2 else ('', 'z'):
                        yield [m, list(t), end]
    few = [t for t in TOKENS if t[0] in 'lHcStTQsqA']
    def seqs3():
        for t in itertools.product(few, repeat=3):
            yield [moves[0], list(t), '']
    chars = 'Mlz01-.,e '
    N = 5 if T else 4
    char = [[p, a, chars, n] for p in ('', 'M1 2', 'm1') for n in range(N) for a in chars]
    arcs = [['M0 0a1 1 0 ', a, '012-., ', n] for n in range(6 if T else 5) for a in '012-., ']
    cub = [['M0 0s1 1', a, '1-., h', n] for n in range(6 if T else 5) for a in '1-., h']
    toks = ['1', '-2', '+3', '.5', '-.25', '4.', '1e1', '15e-1', '-2E+1', '0', '1.5']
    seps = ['', ' ', ',', ' ,', '\n', '\t, ', ',,', ';']
    nums = lambda: ([l, list(t), s] for l, k in (('l', 2), ('h', 1), ('h', 2), ('L', 3), ('V', 3), ('t', 4) if T else ('t', 2)) for t in itertools.product(toks, repeat=k) for s in seps)
    mags = ['1e-7', '-2.5e-9', '.123456789012', '-1234.56789012', '123456.123456789', '-98765432.125', '1e8', '3.0000000001', '0', '7']
    magnitudes = [[l, list(t), ' '] for l, k in (('L', 2), ('l', 2), ('H', 1), ('v', 1), ('T', 2)) for t in itertools.product(mags, repeat=k)]
    magnitudes += [[l, ['1', '2'] + list(t) + ['5', '6'], ' '] for l in 'Cc' for t in itertools.product(mags, repeat=2)]
    magnitudes += [[l, list(t) + ['5', '6'], ' '] for l in 'SsQq' for t in itertools.product(mags, repeat=2)]
    exact = [[a, a, b, '0', '1', c, '-2.25'] for a in mags if a[0] != '-' and a != '0' for b in mags for c in mags]
    inner = [('', '', ','), (' ', '', ' '), ('', ' ', ' , '), ('\n', '\t', '\n,')]
    one = [[[f], '', i] for f in FUNCS for i in inner]
    counts = [[[[n, [1.5, 2, -3, 4, .5, 6, 7][:k]]], '', inner[0]] for n in ('translate', 'scale', 'rotate', 'skewX', 'skewY', 'matrix', 'skew', 'rotateX', 'Scale') for k in range(8)]
    two = [[list(t), j, i] for t in itertools.product(FUNCS, repeat=2) for j in ('', ' ', ',', ' , ', '\n', ',,') for i in inner[:2]]
    three = lambda: ([list(t), ' ', inner[0]] for t in itertools.product(FUNCS, repeat=3))
    four = lambda: ([list(t), ' ', inner[0]] for t in itertools.product(FUNCS, repeat=4))
    dam = [['transform', s] for s in ('translate(1,2)', 'scale(2) rotate(30,1,2)', 'matrix(1 0 0 1 2 3)', 'skewX(1)skewY(.5)', ' rotate ( 5 ) , scale(1 2)', '')]
    dam += [['path', s] for s in ('M1 2L3 4', 'm1-2 3.5.5h1v-1z', 'M0 0a1 1 0 01.5.5', 'M0,0 C1,2 3,4 5,6 S1 1,2 2', 'M0 0q1 2 3 4t1e1-2', 'M1 2z', '')]
    rects = [[x, y, w, h, rx, ry] for x in (None, '1.5') for y in (None, '0', '-2') for w, h in (('10', '8'), ('6', '12.5'))
             for rx, ry in ((None, None), ('0', None), (None, '0'), ('2', None), (None, '2'), ('1.5', '1.5'), ('0', '2'), ('2', '0'), ('3', None))]
    attrs = []
    for cls, (tag, own) in SHAPES.items():
        names = own + COMMON + (PAINT if cls != 'Text' else PAINT[:2])
        if cls == 'Text':
            names = own + ['id', 'style', 'transform', 'fill', 'stroke']
        fixed = ['d'] if cls == 'Path' else []
        rest = [n for n in names if n not in fixed]
        for k in (0, 1, 2) + ((3,) if T else ()):
            for c in itertools.combinations(rest, k):
                attrs.append([cls, fixed + list(c)])
        attrs.append([cls, fixed + rest])
    tri = lambda x: [[[x, x], [x+1, x]], [[x+1, x], [x+1, x+1]], [[x+1, x+1], [x, x]]]
    sub = [['M0 0L1 0M5 5L6 5', [[[0, 0], [1, 0]], [[5, 5], [6, 5]]]], ['M0 0h1v1zl5 5', tri(0) + [[[0, 0], [5, 5]]]], ['m0 0h1v1zm2 2h1v1z', tri(0) + tri(2)]]
    return [
        Space('sequences', seqs, sequence, 'M/m then every sequence of up to {} commands of {} (absolute and relative), open and closed, in 4 layouts'.format(3 if T else 2, len(TOKENS)), 60),
        Space('sequences3', seqs3, sequence, 'every sequence of 3 commands of {}'.format(len(few)), 60),
        Space('strings', char + arcs + cub, strings, 'every string of up to {} characters after a few prefixes'.format(N), 300),
        Space('numbers', nums, numbers, 'every tuple of number spellings x separators'),
        Space("precise", magnitudes, numbers, 'coordinates of every magnitude, read, written and read again'),
        Space('precise arcs', exact, precise, 'radii, angles and stop points of every magnitude, read, written and read again'),
        Space('rounded', lambda: rounded_cases(tier), rounded, 'paths with round corners written as path data'),
        Space('precise attributes', [[k, m] for m in mags for k in ['matrix', 'points', 'stroke-dasharray'] + [[c, n] for c, (t, own) in SHAPES.items() for n in own if n in NUMBERS and n != 'pathLength'] + [['Line', 'stroke-width'], ['Line', 'stroke-miterlimit']]],
              precise_attribute, 'attributes of every magnitude'),
        Space('subpaths', sub, subpaths, 'several sub-paths (known finding)'),
        Space('transforms', one + counts + two, transforms, 'every function, pair of functions, number of arguments and layout'),
        Space('transforms3', four if T else three, transforms, 'every sequence of {} functions'.format(4 if T else 3)),
        Space('damaged', dam, damaged, 'every prefix, deletion, insertion and replacement of a character', 120),
        Space('lengths', [[n, u] for n in ('0', '1', '2.5', '-3', '.5', '1e2', '10') for u in ('', '%', 'em', 'ex', 'px', 'in', 'cm', 'mm', 'pt', 'pc')], lengths, 'numbers x units'),
        Space('rect', rects, rect, 'rectangles with missing, null and given position and radii'),
        Space('shared', lambda: shared_cases(tier), shared, 'every history of 3 (thorough 4) readings of two texts and edits of what was read'),
        Space('attributes', attrs, attributes, 'every set of up to {} attributes of the shapes, read and written twice'.format(3 if T else 2)),
    ]
