"""C05 Valentina patterns: write, read and compare; documents read and written against the format; reading histories."""
import itertools
import os
import pathlib
import re
import shutil
import tempfile
import warnings

from lxml import etree

from mc.core import Space
from mc.patterns import *
from mc.checks import C01_pattern as C01

from Patro.FileFormat.Valentina.Measurement import VitFile
from Patro.FileFormat.Valentina.Pattern import ValFileReader, ValFileWriter

PROPERTY = 'C05'

STYLE_NAMES = {StrokeStyle.NoPen: 'none', StrokeStyle.SolidLine: 'hair', StrokeStyle.DashLine: 'dashLine', StrokeStyle.DotLine: 'dotLine',
               StrokeStyle.DashDotLine: 'dashDotLine', StrokeStyle.DashDotDotLine: 'dashDotDotLine'}
VAL_COLORS = ['black', 'blue', 'cornflowerblue', 'darkBlue', 'darkGreen', 'darkRed', 'darkviolet', 'deeppink', 'deepskyblue', 'goldenrod', 'green',
              'lightsalmon', 'lime', 'mediumseagreen', 'orange', 'violet', 'yellow']

TYPES = {'single': 'single', 'along': 'alongLine', 'end': 'endLine', 'inter': 'lineIntersect', 'normal': 'normal', 'contact': 'pointOfContact',
         'cross': 'pointOfIntersection', 'spline': 'simpleInteractive'}
REFS = {'single': (), 'along': ('firstPoint', 'secondPoint'), 'end': ('basePoint',), 'inter': ('p1Line1', 'p2Line1', 'p1Line2', 'p2Line2'),
        'normal': ('firstPoint', 'secondPoint'), 'contact': ('firstPoint', 'secondPoint', 'center'), 'cross': ('firstPoint', 'secondPoint'),
        'line': ('firstPoint', 'secondPoint'), 'spline': ('point1', 'point4')}
FORMULAS = {'single': ('x', 'y'), 'along': ('length',), 'end': ('angle', 'length'), 'inter': (), 'normal': ('angle', 'length'), 'contact': ('radius',),
            'cross': (), 'line': (), 'spline': ('angle1', 'length1', 'angle2', 'length2')}

VIT = '''<vit><version>0.4.0</version><unit>cm</unit><pm_system>998</pm_system><personal/><body-measurements>{}</body-measurements></vit>'''

def write_vit(tmp, times=1):
    p = os.path.join(tmp, 'm.vit')
    with open(p, 'w', encoding='utf8') as fh:
        fh.write(VIT.format(''.join('<m name="{}" value="{}"/>'.format(k, v if times == 1 else '({})*{}'.format(v, times)) for k, v in MEAS.items())))
    return p

def build(program, ids=None, style=None, color=None, pattern=None, vit=None):
    if pattern is None:
        pattern = Pattern(vit.measurements if vit else measurements(), 'cm')
    sketch = pattern.add_scope('scope').sketch
    points = []
    ops = [add_step(sketch, s, points, id=None if ids is None else ids(i), style=style, color=color) for i, s in enumerate(program)]
    return pattern, sketch, points, ops

POINT_ATTRS = ('first_point', 'second_point', 'base_point', 'center', 'point1_line1', 'point2_line1', 'point1_line2', 'point2_line2')
TEXT_ATTRS = ('name', 'x', 'y', 'length', 'angle', 'radius', 'angle1', 'length1', 'angle2', 'length2')

def describe(op):
    d = {'class': type(op).__name__, 'id': op.id}
    for a in TEXT_ATTRS:
        if hasattr(op, a):
            d[a] = str(getattr(op, a))
    for a in POINT_ATTRS:
        if hasattr(op, a):
            d[a] = getattr(op, a).id
    if hasattr(op, 'label_offset'):
        d['offset'] = (float(op.label_offset.x), float(op.label_offset.y))
    if hasattr(op, 'line_style'):
        d['style'] = op.line_style
        d['color'] = None if op.line_color is None else str(op.line_color)
    return d

def vectors(ops):
    return [(float(o.vector.x), float(o.vector.y)) if getattr(o, 'vector', None) is not None else None for o in ops]

def same_vectors(a, b):
    return len(a) == len(b) and all((u is None) == (v is None) and (u is None or near(u, v, 1e-9) or (nan(u) and nan(v)))
                                    for u, v in zip(a, b))

def nan(u):
    return any(x != x for x in u)

def calculations(path):
    root = etree.parse(path).getroot()
    return [[d.get('name'), [(e.tag, dict(e.attrib), e.text, len(e)) for e in d.find('calculation')]] for d in root.findall('draw')]

def expected_element(step, op, points, style, color, named):
    k = step[0]
    a = {'id': str(op.id)}
    if k != 'line':
        a['type'] = TYPES[k]
    if k in POINT_KINDS:
        a['name'] = op.name
        a['mx'] = op.label_offset.x
        a['my'] = op.label_offset.y
    for n, i in zip(REFS[k], step_points(step)):
        a[n] = str(points[i].id)
    for n, f in zip(FORMULAS[k], step[1 + ARITY[k]:]):
        a[n] = str(f)
    if k in ('along', 'end', 'normal', 'line'):
        if style is not None:
            a['typeLine'] = STYLE_NAMES[style]
        if color is not None:
            a['lineColor'] = color
    if k == 'spline' and color is not None:
        a['color'] = color
    return {'line': 'line', 'spline': 'spline'}.get(k, 'point'), a

def check_element(ctx, got, want, where):
    tag, attrs, _, _ = got
    wtag, wattrs = want
    ctx.eq(tag, wtag, 'tag of {}'.format(where))
    for n, v in wattrs.items():
        ctx.check(n in attrs, 'attribute {} of {} is not written: {}', n, where, attrs)
        if n in ('mx', 'my'):
            ctx.close(attrs[n], v, 'attribute {} of {}'.format(n, where), 1e-12)
        elif n in ('lineColor', 'color'):
            ctx.check(attrs[n] == v.name or attrs[n] == str(v), 'attribute {} of {}: {}', n, where, attrs[n])
        else:
            ctx.eq(attrs[n], v, 'attribute {} of {}'.format(n, where))
    extra = set(attrs) - set(wattrs) - {'typeLine', 'lineColor', 'color', 'penStyle'}
    ctx.check(not extra, 'unexpected attributes of {}: {}', where, extra)

def heading(ctx, path, pattern, vit):
    """the elements of the document around the calculations"""
    root = etree.parse(path).getroot()
    ctx.eq(root.tag, 'pattern', 'root element')
    for name, want in (('unit', pattern.unit), ('version', None), ('measurements', vit.path if vit is not None else '')):
        found = root.findall(name)
        ctx.eq(len(found), 1, 'number of elements ' + name)
        if want is None:
            ctx.check(bool(re.fullmatch(r'[0-9]+(\.[0-9]+)*', found[0].text or '')), 'version {}', found[0].text)
        elif name == 'measurements' and want:
            written = os.path.join(os.path.dirname(path), found[0].text or '')
            ctx.check(os.path.isfile(written) and os.path.samefile(written, want), 'measurement file {!r}, expected {}', found[0].text, want)
        else:
            ctx.eq(found[0].text or '', want, 'element ' + name)
    for draw in root.findall('draw'):
        tags = [e.tag for e in draw]
        ctx.check(tags.count('calculation') == 1 and set(tags) <= {'calculation', 'modeling', 'details', 'groups'}, 'elements of a piece {}', tags)

def round_trip(ctx, tmp, program, ops, sketch, pattern, points, vit, style, color):
    path = os.path.join(tmp, 'p.val')
    ValFileWriter(path, vit, pattern)
    ctx.step()
    heading(ctx, path, pattern, vit)
    calc = calculations(path)
    ctx.eq([c[0] for c in calc], [s.name for s in pattern.scopes], 'names of the pieces')
    ctx.eq(len(calc[-1][1]), len(ops), 'number of calculations')
    for s, o, e in zip(program, ops, calc[-1][1]):
        st, co = style, color
        if s[0] in ('line', 'spline'):
            st, co = st or StrokeStyle.SolidLine, co or Colors.black
        check_element(ctx, e, expected_element(s, o, points, st, co, None), s)
    r = ValFileReader(path)
    ctx.step()
    p2 = r.pattern
    ctx.eq(p2.unit, pattern.unit, 'unit')
    ctx.eq(p2.scope_names(), pattern.scope_names(), 'scopes')
    for sc, sc2 in zip(pattern.scopes, p2.scopes):
        ctx.eq([describe(o) for o in sc2.sketch.operations], [describe(o) for o in sc.sketch.operations], 'the steps read back')
    ops2 = list(p2.scopes)[-1].sketch.operations
    path2 = os.path.join(tmp, 'p2.val')
    ValFileWriter(path2, vit, p2)
    ctx.eq(calculations(path2), calc, 'the calculations written again')
    return ops2

def solvable(program):
    s = new_sketch()
    pts = []
    for st in program:
        add_step(s, st, pts)
    try:
        s.eval()
    except Exception:
        return False
    return True

def trip_cases(tier):
    for c in C01.one_cases(tier):
        if tier != 'quick' or c[0] == 0:
            yield [c[0], c[1], 'auto']
    for k, c in enumerate(C01.two_cases('quick')):
        if c[0] == 0 and (tier != 'quick' or all(len(set(step_points(s))) == len(step_points(s)) and step_points(s)[0] == (0, 3)[j] for j, s in enumerate(c[1]))):
            yield [c[0], c[1], ('auto', 'down', 'sparse', 'mixed')[k % 4]]

def trip(case, ctx):
    b, steps, ids = case
    program = C01.program_of([b, steps])
    if not solvable(program):
        return
    n = len(program)
    f = {'auto': None, 'down': lambda i: 50 - i, 'sparse': lambda i: 7*i + 3, 'mixed': lambda i: 4*i + 1 if i % 2 else None}[ids]
    ctx.state(case)
    with tempfile.TemporaryDirectory(prefix='mc-c05-') as tmp:
        vit = VitFile(write_vit(tmp))
        pattern, sketch, points, ops = build(program, f, vit=vit)
        sketch.eval()
        ops2 = round_trip(ctx, tmp, program, ops, sketch, pattern, points, vit, None, None)
        ctx.check(same_vectors(vectors(ops2), vectors(ops)), 'positions read back: {}, expected {}', vectors(ops2), vectors(ops))
    ctx.outcome(vectors(ops)[-1])

# styles, colours, names, offsets, units, several pieces

STYLED = [['single', 0, 0], ['single', 'w', 3], ['along', 0, 1, 2], ['end', 0, 30, 2], ['normal', 0, 1, 0, 2], ['line', 0, 1], ['spline', 0, 1, 30, 2, 60, '@m']]

def style_cases(tier):
    for s in list(range(len(STYLES))) + [None]:
        for c in VAL_COLORS + ['#123456', 'red', None]:
            for named in (True, False):
                yield [s, c, named]

def style(case, ctx):
    s, c, named = case
    ctx.state(case)
    color = None if c is None else Colors.ensure_color(c)
    if color is not None and not named:
        from Patro.GraphicStyle import Color
        color = Color(str(color))
    style = None if s is None else STYLES[s]
    with tempfile.TemporaryDirectory(prefix='mc-c05-') as tmp:
        vit = VitFile(write_vit(tmp))
        pattern, sketch, points, ops = build(STYLED, None, style, color, vit=vit)
        round_trip(ctx, tmp, STYLED, ops, sketch, pattern, points, vit, style, color)

TEXTS = ['A', "A'", 'é', 'a b', '<&>"', 'Avant_1', '日本']
OFFSETS = [0, -1.5, 0.1, 1/3, 1e-7, 12345.678]

def text_cases(tier):
    for n in TEXTS:
        for sc in TEXTS:
            yield [n, sc, 'cm', 0.5, -0.25, 1]
    for u in ('cm', 'mm', 'inch'):
        for x in OFFSETS:
            for y in OFFSETS:
                yield ['A', 'x', u, x, y, 1]
    for n in (0, 1, 2, 3):
        for ns in itertools.product('ab', repeat=n):
            yield ['A', ns, 'cm', 0, 0, n]

def text(case, ctx):
    n, sc, unit_, x, y, count = case
    ctx.state(case)
    pattern = Pattern(None, unit_)
    names = [sc] if isinstance(sc, str) else sc
    all_ops = []
    for k, name in enumerate(names):
        s = pattern.add_scope(name).sketch
        s.SinglePoint(n, 1 + k, 2, Vector2D(x, y))
        s.EndLinePoint(n + 'b', n, 30, 2, Vector2D(y, x))
        s.Line(n, n + 'b')
        s.eval()
    with tempfile.TemporaryDirectory(prefix='mc-c05-') as tmp:
        path = os.path.join(tmp, 'p.val')
        ValFileWriter(pathlib.Path(path), None, pattern)
        heading(ctx, path, pattern, None)
        r = ValFileReader(pathlib.Path(path))
        ctx.check(r.vit_file is None and r.measurements is None, 'measurements')
        ctx.eq(r.pattern.unit, unit_, 'unit')
        ctx.eq(r.pattern.scope_names(), list(names), 'scopes')
        for a, b in zip(pattern.scopes, r.pattern.scopes):
            ctx.eq([describe(o) for o in b.sketch.operations], [describe(o) for o in a.sketch.operations], 'steps')
            ctx.check(same_vectors(vectors(b.sketch.operations), vectors(a.sketch.operations)), 'positions')

# documents written by hand in the Valentina format

def doc_cases(tier):
    for c in C01.one_cases(tier):
        if c[0] in ((0, 1) if tier == 'quick' else range(4)):
            for extra in (0, 1, 2, 3) if c[0] == 0 and c[1][0][0] in ('line', 'cross', 'single') else (0,):
                yield [c[0], c[1], extra]
    for st in range(len(STYLES)):
        for co in range(len(VAL_COLORS)):
            yield ['styled', [st, co], 0]

def doc(case, ctx):
    b, steps, extra = case
    st = co = None
    if b == 'styled':
        program = STYLED
        st, co = STYLES[steps[0]], VAL_COLORS[steps[1]]
    else:
        program = C01.program_of([b, steps])
        if not solvable(program):
            return
    ctx.state(case)
    # ids as Valentina numbers them
    names = []
    pid = []
    out = []
    for i, s in enumerate(program):
        k = s[0]
        a = {'id': str(3*i + 1)}
        if k != 'line':
            a['type'] = TYPES[k]
        for n, j in zip(REFS[k], step_points(s)):
            a[n] = pid[j]
        for n, f in zip(FORMULAS[k], s[1 + ARITY[k]:]):
            a[n] = str(f)
        if k in POINT_KINDS:
            a.update(name=NAMES[len(pid)], mx=repr(0.25*len(pid)), my=repr(-0.5*len(pid)))
            pid.append(a['id'])
        if k in ('along', 'end', 'normal', 'line'):
            a.update(typeLine=STYLE_NAMES[st or StrokeStyle.SolidLine], lineColor=co or 'black')
        if k == 'spline':
            a['color'] = co or 'black'
        out.append(etree.Element({'line': 'line', 'spline': 'spline'}.get(k, 'point'), **a))
    if extra == 1: # comments and an unsupported calculation
        out.insert(1, etree.Comment('comment'))
        out.insert(3, etree.Element('point', id='200', type='bisector', name='Q', firstPoint='1', secondPoint='4', thirdPoint='7', length='1'))
        out.insert(4, etree.Element('arc', id='201', center='1', radius='1', angle1='0', angle2='90', type='simple'))
    root = etree.Element('pattern')
    for tag, t in (('version', '0.7.10'), ('unit', 'mm'), ('description', None), ('notes', 'n'), ('measurements', 'm.vit')):
        etree.SubElement(root, tag).text = t
    draw = etree.SubElement(root, 'draw', name='piece')
    calc = etree.SubElement(draw, 'calculation')
    for e in out:
        calc.append(e)
    mod = etree.SubElement(draw, 'modeling')
    det = etree.SubElement(draw, 'details')
    if extra == 2:
        etree.SubElement(mod, 'point', id='300', idObject='1', inUse='true', mx='1.5', my='0', type='modeling')
        mod.append(etree.Comment('c'))
        etree.SubElement(mod, 'path', id='301', type='2', name='fold', typeLine='hair')
        d = etree.SubElement(det, 'detail', id='302', version='2', forbidFlipping='false', width='1.25', united='false', mx='0', my='0.5', name='D', inLayout='true', seamAllowance='true')
        etree.SubElement(d, 'grainline', arrows='0', mx='0', length='0.5', visible='false', rotation='90.5', my='0')
        etree.SubElement(etree.SubElement(d, 'nodes'), 'node', idObject='300', type='NodePoint')
    if extra == 3: # details on elements which are not supported
        calc.append(etree.Element('arc', id='201', center='1', radius='1', angle1='0', angle2='90', type='simple'))
        etree.SubElement(mod, 'arc', id='303', idObject='201', inUse='true', type='modeling')
        etree.SubElement(mod, 'spline', id='304', idObject='202', inUse='true', type='modelingSpline')
        etree.SubElement(mod, 'point', id='305', idObject='1', inUse='true', mx='1.5', my='0', type='modeling')
        d = etree.SubElement(det, 'detail', id='306', version='2', forbidFlipping='false', width='1.25', united='false', mx='0', my='0.5', name='D', inLayout='true', seamAllowance='true')
        nodes = etree.SubElement(d, 'nodes')
        nodes.append(etree.Comment('c'))
        for j, t in (('303', 'NodeArc'), ('305', 'NodePoint'), ('304', 'NodeSpline')):
            etree.SubElement(nodes, 'node', idObject=j, type=t)
    with tempfile.TemporaryDirectory(prefix='mc-c05-') as tmp:
        write_vit(tmp)
        path = os.path.join(tmp, 'p.val')
        with open(path, 'wb') as fh:
            fh.write(etree.tostring(root, pretty_print=True))
        r = ValFileReader(path)
    ops = list(r.pattern.scopes)[0].sketch.operations
    ctx.eq(r.pattern.unit, 'mm', 'unit')
    ctx.eq([o.id for o in ops], [3*i + 1 for i in range(len(program))], 'ids')
    check_program(ctx, program, ops)
    n = 0
    for s, o in zip(program, ops):
        if s[0] in POINT_KINDS:
            ctx.eq(o.name, NAMES[n], 'name')
            ctx.eq((o.label_offset.x, o.label_offset.y), (0.25*n, -0.5*n), 'label offset')
            n += 1
        for attr, f in zip({'spline': ('angle1', 'length1', 'angle2', 'length2')}.get(s[0], FORMULAS[s[0]]), s[1 + ARITY[s[0]]:]):
            ctx.eq(str(getattr(o, attr)), str(f), attr)
        if s[0] in ('along', 'end', 'normal', 'line'):
            ctx.eq(o.line_style, st or StrokeStyle.SolidLine, 'line style')
        if s[0] in ('along', 'end', 'normal', 'line', 'spline'):
            ctx.eq(str(Colors.ensure_color(o.line_color)), str(Colors[co or 'black']), 'line colour')

# several files read and written in one process

def history_cases(tier):
    ops = ['r0', 'r1', 'r2', 'w0', 'w1', 'n']
    for n in range(1, 4 if tier == 'quick' else 5):
        for seq in itertools.product(ops, repeat=n):
            yield list(seq)

HPROGS = [
    C01.BASES[0] + [['along', 0, 1, 'CurrentLength/3'], ['line', 3, 1]],
    C01.BASES[1] + [['normal', 0, 1, 30, '@m*2'], ['spline', 3, 0, 30, 2, 60, 1]],
    C01.BASES[0] + [['contact', 0, 1, 2, 'w']],
]

def history(case, ctx):
    ctx.state(case)
    with tempfile.TemporaryDirectory(prefix='mc-c05-') as tmp:
        vit = VitFile(write_vit(tmp))
        made = []
        for k, prog in enumerate(HPROGS):
            pattern, sketch, points, ops = build(prog, lambda i: 2*i + 1, vit=vit)
            sketch.eval()
            path = os.path.join(tmp, 'p{}.val'.format(k))
            ValFileWriter(path, vit, pattern)
            made.append((pattern, [describe(o) for o in ops], vectors(ops), path))
        read = []
        for a in case:
            ctx.step()
            if a[0] == 'r':
                k = int(a[1])
                r = ValFileReader(made[k][3])
                read.append((k, r.pattern))
            elif a[0] == 'w':
                k = int(a[1])
                if read:
                    j, p = read[-1]
                    ValFileWriter(made[j][3], vit, p)
                else:
                    ValFileWriter(made[k][3], vit, made[k][0])
            else:
                s = new_sketch()
                s.SinglePoint('A', 0, 0, Vector2D(0, 0), id=1)
                ctx.raises(NameError, lambda: s.SinglePoint('B', 0, 0, Vector2D(0, 0), id=1), 'duplicated id')
        for k, p in read:
            ops = list(p.scopes)[0].sketch.operations
            ctx.eq([describe(o) for o in ops], made[k][1], 'the steps of file {} in {}'.format(k, case))
            ctx.check(same_vectors(vectors(ops), made[k][2]), 'the positions of file {} in {}', k, case)

# other patterns, with other measurements, written at the same place and read in turn

def rewritten_cases(tier):
    alphabet = list(itertools.product(range(len(HPROGS)), (1, 2)))
    for n in (2, 3):
        for seq in itertools.product(alphabet, repeat=n):
            yield [list(x) for x in seq]

def rewritten(case, ctx):
    ctx.state(case)
    live = []
    with tempfile.TemporaryDirectory(prefix='mc-c05-') as tmp:
        path = os.path.join(tmp, 'p.val')
        for k, times in case:
            vit = VitFile(write_vit(tmp, times))
            pattern, sketch, points, ops = build(HPROGS[k], lambda i: 2*i + 1, vit=vit)
            sketch.eval()
            ValFileWriter(path, vit, pattern)
            r = ValFileReader(path)
            ctx.step(2)
            live.append((list(r.pattern.scopes)[0].sketch.operations, [describe(o) for o in ops], vectors(ops), r.measurements, k, times))
            for got, steps, positions, m, k, times in live:
                ctx.eq([describe(o) for o in got], steps, 'the steps of {} in {}'.format(k, case))
                ctx.check(same_vectors(vectors(got), positions), 'the positions of {} in {}: {}, expected {}', k, case, vectors(got), positions)
                if times == 1:
                    check_program(ctx, HPROGS[k], got)
                for name, value in MEAS.items():
                    ctx.close(m[name].value, value*times, 'measurement {} in {}'.format(name, case))

# two pieces in a file: ids are unique over the file, references stay in the piece

def piece_cases(tier):
    for a, b in itertools.product(range(len(HPROGS)), repeat=2):
        for off in (20, 100):
            for swap in (False, True):
                yield [a, b, off, swap]

def piece(case, ctx):
    a, b, off, swap = case
    ctx.state(case)
    with tempfile.TemporaryDirectory(prefix='mc-c05-') as tmp:
        vit = VitFile(write_vit(tmp))
        lo, hi = (lambda i: i + 1), (lambda i: off + i)
        pattern, s1, p1, o1 = build(HPROGS[a], hi if swap else lo, vit=vit)
        pattern, s2, p2, o2 = build(HPROGS[b], lo if swap else hi, pattern=pattern)
        s1.eval(); s2.eval()
        path = os.path.join(tmp, 'p.val')
        ValFileWriter(path, vit, pattern)
        r = ValFileReader(path)
        got = [sc.sketch for sc in r.pattern.scopes]
        for g, s, prog in zip(got, (s1, s2), (HPROGS[a], HPROGS[b])):
            ctx.eq([describe(o) for o in g.operations], [describe(o) for o in s.operations], 'steps of a piece')
            ctx.check(same_vectors(vectors(g.operations), vectors(s.operations)), 'positions of a piece')
            check_program(ctx, prog, g.operations)

# where the measurements are: the file designated from the directory of the pattern, whatever the working directory

DIRECTORIES = ['.', 'sub', 'other']
PLACES = ['absent', 'empty', 'm.vit', 'sub/m.vit', '../m.vit', './m.vit', '/m.vit']

def place_cases(tier):
    for where in DIRECTORIES:
        for cwd in DIRECTORIES + ['/']:
            for place in PLACES:
                for mask in range(8):
                    yield ['read', where, cwd, place, mask]
            for vit in DIRECTORIES:
                for later in DIRECTORIES + ['/']:
                    for relative in ((0, 0), (0, 1), (1, 0), (1, 1)):
                        yield ['write', where, cwd, vit, later, *relative]
    for unit in (None, '', 'cm', 'mm', 'inch'):
        yield ['unit', unit]

def place(case, ctx):
    kind, *args = case
    ctx.state(case)
    home = os.getcwd()
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='mc-c05-'))
    try:
        at = lambda d, *n: os.path.normpath(os.path.join(tmp, 'top', d, *n)) if d != '/' else '/'
        for d in DIRECTORIES:
            os.makedirs(at(d), exist_ok=True)
        def put(d):
            with open(at(d, 'm.vit'), 'w') as fh:
                fh.write(VIT.format('<m name="k" value="{}"/>'.format(DIRECTORIES.index(d) + 1)))
        def value(d):
            return DIRECTORIES.index(d) + 1.
        val = lambda m, unit='<unit>cm</unit>': '<pattern><version>0.7.10</version>{}{}<draw name="a"><calculation/><modeling/><details/></draw></pattern>'.format(unit, m)
        if kind == 'unit':
            unit, = args
            with open(at('.', 'p.val'), 'w') as fh:
                fh.write(val('<measurements/>', '' if unit is None else '<unit>{}</unit>'.format(unit)))
            if not unit:
                ctx.raises(NameError, lambda: ValFileReader(at('.', 'p.val')), 'no unit')
            else:
                r = ValFileReader(at('.', 'p.val'))
                ctx.eq((r.pattern.unit, r.measurements), (unit, None), 'unit')
            return
        if kind == 'read':
            where, cwd, how, mask = args
            present = [d for i, d in enumerate(DIRECTORIES) if mask >> i & 1]
            for d in present:
                put(d)
            text = {'absent': '', 'empty': '<measurements/>'}.get(how, '<measurements>{}</measurements>'.format(at('.') + how if how[0] == '/' else how))
            path = at(where, 'p.val')
            with open(path, 'w') as fh:
                fh.write(val(text))
            os.chdir(at(cwd))
            names = [path, os.path.relpath(path)]
            if how == 'empty':
                for n in names:
                    ctx.eq(ValFileReader(n).measurements, None, 'no measurements')
                return
            if how == 'absent': # not a Valentina document
                return
            # the files which can be meant, from the directory of the pattern, then the working directory
            meant = [os.path.normpath(os.path.join(base, at('.') + how if how[0] == '/' else how)) for base in (at(where), os.getcwd())]
            found = [d for m in meant for d in present if at(d, 'm.vit') == m]
            for n in names:
                if not found:
                    ctx.raises(NameError, lambda: ValFileReader(n), 'missing measurements')
                else:
                    ctx.eq(ValFileReader(n).measurements['k'].value, value(found[0]), 'measurements of the pattern')
            ctx.outcome(len(found))
            return
        where, cwd, vit, later, rel1, rel2 = args
        put(vit)
        os.chdir(at(cwd))
        name = lambda p, rel: os.path.relpath(p) if rel else p
        v = VitFile(name(at(vit, 'm.vit'), rel1))
        p = Pattern(v.measurements, 'cm')
        p.add_scope('a').sketch.SinglePoint('A', 'k', '2*k', Vector2D(0, 0))
        ValFileWriter(name(at(where, 'p.val'), rel2), v, p)
        os.chdir(at(later))
        ctx.step(2)
        # homonyms which must not be taken
        if later not in (vit, '/'):
            put(later)
        for n in (at(where, 'p.val'), os.path.relpath(at(where, 'p.val'))):
            r = ValFileReader(n)
            ctx.eq(r.measurements['k'].value, value(vit), 'measurements of the pattern written')
            ctx.eq([str(o.x) for o in list(r.pattern.scopes)[0].sketch.operations], ['k'], 'formula')
    finally:
        os.chdir(home)
        shutil.rmtree(tmp)

def spaces(tier):
    return [
        Space('round-trip', lambda: trip_cases(tier), trip, 'every one-step program and two-step programs, four id policies: written elements against the format, steps and positions read back, second writing'),
        Space('styles', lambda: style_cases(tier), style, 'every stroke style x every Valentina colour, a custom colour and none'),
        Space('texts', lambda: text_cases(tier), text, 'names, piece names, units, label offsets, number of pieces'),
        Space('documents', lambda: doc_cases(tier), doc, 'documents in the Valentina format for every one-step program, styles and colours, with comments, unsupported calculations, modeling and details'),
        Space('histories', lambda: history_cases(tier), history, 'every sequence of up to 3 (thorough 4) readings, writings and constructions in one process'),
        Space('places', lambda: place_cases(tier), place, 'the measurement file designated from every directory, with every set of homonyms, read and written from every working directory'),
        Space('rewritten', lambda: rewritten_cases(tier), rewritten, 'every sequence of 2 and 3 patterns with two sets of measurements, written and read at one place'),
        Space('pieces', lambda: piece_cases(tier), piece, 'pairs of pieces in one file'),
    ]
