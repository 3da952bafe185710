"""C26: colours, colour names and graphic styles."""
import colorsys, copy, itertools, math
from matplotlib import colors as reference
from PyQt5.QtGui import QColor
from mc.core import Space
from mc.gen import seqs_upto
from Patro.GraphicStyle import Color, Colors, StrokeStyle, CapStyle, JoinStyle
from Patro.GraphicStyle.Color import color_data
from Patro.GraphicStyle.Color.ColorDataBase import ColorDataBase
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle, GraphicBezierStyle

PROPERTY = 'C26'
ASSUMPTIONS = ['the tables of CSS4, XKCD and Tableau names are compared with Matplotlib, the QML ones with Qt; the first table which holds a name wins and a space is written as an underscore',
               'integers are 0..255, floats 0..1; a Color object shared by two styles is not mutated']
NAMES = ('red', 'green', 'blue')

def vec(ctx, got, want, msg, tol=1e-9):
    ctx.check(len(got) == len(want) and all(abs(a - b) <= tol for a, b in zip(got, want)), '{}: got {}, expected {}', msg, tuple(got), tuple(want))

def same(ctx, c, rgb, msg, name=None, floats=None):
    """*c* is the colour *rgb* in every representation"""
    text = '#%02x%02x%02x' % tuple(rgb)
    ctx.eq((c.red, c.green, c.blue), tuple(rgb), msg)
    ctx.eq(str(c), text, msg + ': text')
    f = floats or [x/255 for x in rgb]
    vec(ctx, (c.red_float, c.green_float, c.blue_float), f, msg + ': floats', tol=1e-12)
    ctx.check(c == text and c == Color(text), '{}: equality', msg)
    other = list(rgb); other[2] ^= 1
    ctx.check(not (c == Color(*other)) and c != Color(*other), '{}: inequality', msg)
    ctx.eq(c.name, name, msg + ': name')

def components(case, ctx):
    case = tuple(case)
    ctx.state(case)
    text = '#%02x%02x%02x' % case
    made = {'ints': Color(*case), 'hex': Color(text), 'HEX': Color(text.upper()), 'floats': Color(*[x/255 for x in case])}
    made['mixed'] = Color(case[0], case[1]/255, case[2])
    made['colour'] = Color(made['ints'])
    made['clone'] = made['floats'].clone()
    made['ensured text'] = Colors.ensure_color(text)
    made['ensured colour'] = Colors.ensure_color(made['hex'])
    for kind in (int, float):
        c = Color()
        ctx.eq(str(c), '#000000', 'default colour')
        for n, x in zip(NAMES, case):
            setattr(c, n, x if kind is int else x/255)
        made['set ' + kind.__name__] = c
    for how, c in made.items():
        same(ctx, c, case, how)
    ctx.check(made['ensured colour'] is made['hex'], 'ensure_color returns the colour it is given')
    ctx.eq(len({str(c) for c in made.values()}), 1, 'one text')
    f = [x/255 for x in case]
    vec(ctx, made['ints'].hls, colorsys.rgb_to_hls(*f), 'hls', tol=1e-12)
    vec(ctx, made['ints'].hsv, colorsys.rgb_to_hsv(*f), 'hsv', tol=1e-12)
    h, l, s = made['ints'].hls
    same(ctx, Color(hue=h, light=l, saturation=s), case, 'from hue, light, saturation')
    h, s, v = made['ints'].hsv
    same(ctx, Color(hue=h, value=v, saturation=s), case, 'from hue, value, saturation')
    ctx.outcome(text)

def comp_cases(tier):
    full = range(256)
    seen = set()
    for a, b in itertools.product((0, 77, 255), repeat=2):
        for x in full:
            for c in ((x, a, b), (a, x, b), (a, b, x)):
                if c not in seen:
                    seen.add(c); yield c
    step = 17 if tier == 'quick' else 3
    for c in itertools.product(range(0, 256, step), repeat=3):
        if c not in seen:
            seen.add(c); yield c

def hue2rgb(h, l, s):
    """textbook HSL"""
    c = (1 - abs(2*l - 1))*s
    hp = h*6 % 6
    x = c*(1 - abs(hp % 2 - 1))
    rgb = [(c, x, 0), (x, c, 0), (0, c, x), (0, x, c), (x, 0, c), (c, 0, x)][int(hp)]
    return [v + l - c/2 for v in rgb]

def hsv2rgb(h, s, v):
    c = v*s
    hp = h*6 % 6
    x = c*(1 - abs(hp % 2 - 1))
    rgb = [(c, x, 0), (x, c, 0), (0, c, x), (0, x, c), (x, 0, c), (c, 0, x)][int(hp)]
    return [w + v - c for w in rgb]

def hues(case, ctx):
    h, a, s = case
    ctx.state(case)
    for ih, ia, is_ in itertools.product((0, 1), repeat=3):
        # whole numbers also given as integers
        H, A, S = [int(x) if i and x == int(x) else x for x, i in ((h, ih), (a, ia), (s, is_))]
        c = Color(hue=H, light=A, saturation=S)
        vec(ctx, (c.red_float, c.green_float, c.blue_float), hue2rgb(h, a, s), 'hue light saturation', tol=1e-9)
        c = Color(hue=H, value=A, saturation=S, name='x')
        vec(ctx, (c.red_float, c.green_float, c.blue_float), hsv2rgb(h, s, a), 'hue value saturation', tol=1e-9)
        ctx.eq(c.name, 'x', 'name')
    ctx.outcome(str(c))

def hue_cases(tier):
    n = 24 if tier == 'quick' else 72
    m = 8 if tier == 'quick' else 24
    for i, j, k in itertools.product(range(n + 1), range(m + 1), range(m + 1)):
        yield i/n, j/m, k/m

def floats(case, ctx):
    i, n = case
    x = i/n
    ctx.state(case)
    for k, name in enumerate(NAMES):
        rgb = [.25, .5, .75]; rgb[k] = x
        a = Color(*rgb)
        b = Color(); b.red, b.green, b.blue = rgb
        for c in (a, b, a.clone(), Color(a)):
            ctx.eq((c.red_float, c.green_float, c.blue_float), tuple(rgb), 'floats are kept')
            got = getattr(c, name)
            ctx.check(isinstance(got, int) and abs(got - x*255) <= .5 + 1e-9, '{} = {} is not the nearest of {}', name, got, x*255)
        d = Color(*[(a.red, a.green, a.blue)[j] for j in range(3)])
        ctx.check(a == d and d == a, 'equality')
        ctx.eq(str(Color(str(a))), str(a), 'text reads back')
    ctx.outcome(str(a))

def float_cases(tier):
    n = 1020 if tier == 'quick' else 10200
    for i in range(n + 1):
        yield i, n

BAD_TEXT = ['', '#', '#f', '#ff', '#fff', '#ffff', '#fffff', '#fffffff', '#ffffffff', 'ffffff', '0xffffff', '#gggggg', '#12345g', '#g12345', 'red', '# 12345', 'rgb(1,2,3)']
BAD_VALUE = [-1, 256, 1000, -.001, 1.001, 2., 255., None, '12', float('nan'), float('inf')]

def bad(case, ctx):
    kind, x = case
    x = (BAD_TEXT if kind == 'text' else BAD_VALUE)[x]
    ctx.state((kind, repr(x)))
    if kind == 'text':
        ctx.raises(ValueError, lambda: Color(x))
        if x.startswith('#'):
            ctx.raises(ValueError, lambda: Colors.ensure_color(x))
    else:
        for i in range(3):
            args = [1, 2, 3]; args[i] = x
            ctx.raises((ValueError, TypeError), lambda: Color(*args))
            c = Color(1, 2, 3)
            def set_(c=c, i=i):
                setattr(c, NAMES[i], x)
            ctx.raises((ValueError, TypeError), set_)
            ctx.eq(str(c), '#010203', 'colour after a refused component')
    ctx.outcome((kind, repr(x)))

def bad_cases(tier):
    for x in range(len(BAD_TEXT)):
        yield 'text', x
    for x in range(len(BAD_VALUE)):
        yield 'value', x

REFERENCE = {'CSS4_COLORS': {k: v for k, v in reference.CSS4_COLORS.items()},
             'XKCD_COLORS': {k.replace('xkcd:', ''): v for k, v in reference.XKCD_COLORS.items()},
             'TABLEAU_COLORS': {k.replace('tab:', ''): v for k, v in reference.TABLEAU_COLORS.items()},
             'QML_COLORS': {n: QColor(n).name() for n in QColor.colorNames() if n != 'transparent'},
             'BASE_COLORS': dict(black='#000000', blue='#0000ff', green='#00ff00', cyan='#00ffff', red='#ff0000', magenta='#ff00ff', yellow='#ffff00', white='#ffffff'),
             # the names of Valentina 0.6: Qt's ones in lower case
             'VALENTINA_COLORS': None}
ORDER = ['BASE_COLORS', 'TABLEAU_COLORS', 'XKCD_COLORS', 'CSS4_COLORS', 'QML_COLORS', 'VALENTINA_COLORS']
TABLES = {}
for _name in ORDER:
    for _k, _v in getattr(color_data, _name).items():
        _r = REFERENCE[_name]
        _v = QColor(_k.lower()).name() if _r is None else _r.get(_k.split(':')[-1])
        TABLES.setdefault(_k.replace(' ', '_'), _v)

def named(case, ctx):
    ctx.state(case)
    if case == '*':
        ctx.eq(len(Colors), len(TABLES), 'number of colours')
        ctx.eq(sorted(Colors.iter_names()), sorted(TABLES), 'names')
        ctx.eq([str(x) for x in Colors], [str(Colors[n]) for n in Colors.iter_names()], 'iteration')
        for t in ORDER:
            r = REFERENCE[t]
            if r is not None:
                ctx.eq({k.split(':')[-1] for k in getattr(color_data, t)} - set(r), set(), 'names of ' + t)
        for unknown in ('no_such_colour', '', 'RED ', '_red', '0'):
            ctx.check(unknown not in Colors, 'unknown {}', unknown)
            ctx.raises(KeyError, lambda: Colors[unknown])
            ctx.raises(AttributeError, lambda: getattr(Colors, unknown))
            ctx.check(not hasattr(Colors, unknown), 'hasattr {}', unknown)
            ctx.raises(KeyError, lambda: Colors.ensure_color(unknown))
            ctx.raises(KeyError, lambda: GraphicPathStyle(stroke_color=unknown))
        ctx.check(Colors.ensure_color(None) is None, 'no colour')
        for x in (1, 1.5, (1, 2, 3), b'#000000'):
            ctx.raises(ValueError, lambda: Colors.ensure_color(x))
        return
    want = TABLES[case].lower()
    ctx.check(case in Colors, '{} is a colour', case)
    rgb = tuple(int(want[i:i+2], 16) for i in (1, 3, 5))
    for how, c in (('index', Colors[case]), ('attribute', getattr(Colors, case)), ('ensured', Colors.ensure_color(case)),
                   ('clone', Colors[case].clone()), ('stroke', GraphicPathStyle(stroke_color=case).stroke_color),
                   ('fill', GraphicPathStyle(fill_color=case).fill_color), ('control', GraphicBezierStyle(control_color=case).control_color)):
        same(ctx, c, rgb, '{}, {}'.format(case, how), name=case)
    ctx.outcome(want)

def named_cases(tier):
    yield '*'
    yield from TABLES

# operations on a new data base
DB_OPS = [('add', n, c) for n in ('a', 'b', 'c d') for c in ('#010203', '#ff0000')] + [('look', n) for n in ('a', 'c d', 'zz')]

def database(case, ctx):
    db, model = ColorDataBase(), {}
    for i in case:
        op = DB_OPS[i]
        ctx.step()
        if op[0] == 'add':
            db.add(op[1], Color(op[2], name=op[1])); model[op[1]] = op[2]
        else:
            n = op[1]
            ctx.eq(n in db, n in model, 'contains')
            if n in model:
                ctx.eq((str(db[n]), str(getattr(db, n)), str(db.ensure_color(n))), (model[n],)*3, 'lookup')
            else:
                ctx.raises(KeyError, lambda: db[n]); ctx.raises(AttributeError, lambda: getattr(db, n))
        ctx.eq(len(db), len(model), 'length')
        ctx.eq(list(db.iter_names()), list(model), 'names')
        ctx.eq([str(c) for c in db], list(model.values()), 'colours')
        twin = copy.copy(db)
        ctx.eq(list(twin.iter_names()), list(model), 'names of a copy')
        ctx.state(tuple(model.items()))
    ctx.outcome(tuple(model.items()))

def db_cases(tier):
    yield from seqs_upto(range(len(DB_OPS)), 1, 3 if tier == 'quick' else 4)

# ---------------------------------------------------------------- styles
SHARED = Color(9, 8, 7)
FIELDS = {'stroke_style': [StrokeStyle.SolidLine] + [s for s in StrokeStyle if s is not StrokeStyle.SolidLine],
          'line_width': [1.0, 2, .5, '3pt', 0],
          'stroke_color': ['#000000', 'red', '#0a0b0c', SHARED, None, 'blue'],
          'stroke_alpha': [1.0, .5, 0, '.25'],
          'fill_color': [None, 'xkcd', '#0a0b0c', SHARED, 'blue'],
          'fill_alpha': [1.0, .5, 0],
          'cap_style': [CapStyle.SquareCap, CapStyle.FlatCap, CapStyle.RoundCap],
          'join_style': [JoinStyle.BevelJoin, JoinStyle.MiterJoin, JoinStyle.RoundJoin, JoinStyle.SvgMiterJoin]}
FIELDS['fill_color'][1] = 'lime'
BEZIER = dict(FIELDS, show_control=[False, True, 1, 0], control_color=[None, 'blue', '#0a0b0c', SHARED])
CLASSES = {'path': (GraphicPathStyle, FIELDS), 'bezier': (GraphicBezierStyle, BEZIER)}

def norm(field, value):
    if value is None:
        return None
    if field.endswith('color'):
        if isinstance(value, Color):
            return str(value)
        return value if value[0] == '#' else TABLES[value].lower()
    if field.endswith('alpha'):
        return float(value)
    if field == 'show_control':
        return bool(value)
    return value

def default(fields):
    return {f: norm(f, v[0]) for f, v in fields.items()}

def observe(style, fields):
    d = {}
    for f in fields:
        v = getattr(style, f)
        d[f] = str(v) if f.endswith('color') and v is not None else v
    return d

def style_values(case, ctx):
    kind, pairs = case
    cls, fields = CLASSES[kind]
    ctx.state((kind, tuple((f, i) for f, i in pairs)))
    kw = {f: fields[f][i] for f, i in pairs}
    model = default(fields)
    model.update({f: norm(f, v) for f, v in kw.items()})
    a = cls(**kw)
    ctx.eq(observe(a, fields), model, 'style made with {}'.format(kw))
    b = cls()
    ctx.eq(observe(b, fields), default(fields), 'default style')
    for f, v in kw.items():
        setattr(b, f, v)
    ctx.eq(observe(b, fields), model, 'style set to {}'.format(kw))
    c = a.clone()
    ctx.check(type(c) is cls and c is not a, 'class of a clone')
    ctx.eq(observe(c, fields), model, 'clone of {}'.format(kw))
    ctx.eq(observe(c.clone(), fields), model, 'clone of a clone')
    if not isinstance(model['line_width'], str):
        ctx.eq((a.line_width_as_float, c.line_width_as_float), (float(model['line_width']),)*2, 'width')
    repr(a)
    # nobody else changed
    ctx.eq(observe(cls(), fields), default(fields), 'defaults afterwards')
    for f, other in fields.items():
        for v in other[1:]:
            setattr(c, f, v)
            changed = dict(model); changed[f] = norm(f, v)
            ctx.eq(observe(c, fields), changed, 'clone after {} = {}'.format(f, v))
            ctx.eq(observe(a, fields), model, 'source after {} = {} on its clone'.format(f, v))
            setattr(c, f, kw.get(f, fields[f][0]))
    ctx.eq(observe(c, fields), model, 'fields put back')
    ctx.outcome((kind, tuple(sorted((k, str(v)) for k, v in model.items()))))

def style_cases(tier):
    for kind, (cls, fields) in CLASSES.items():
        single = [(f, i) for f in fields for i in range(len(fields[f]))]
        yield kind, ()
        for n in range(1, 3 if tier == 'quick' else 4):
            for combo in itertools.combinations(single, n):
                if len({f for f, i in combo}) == n:
                    yield kind, combo
        yield kind, tuple((f, len(fields[f])-1) for f in fields)

REFUSED = [('stroke_style', 'SolidLine'), ('stroke_style', 0), ('stroke_style', None), ('stroke_style', CapStyle.FlatCap), ('cap_style', 'x'), ('cap_style', StrokeStyle.DashLine),
           ('join_style', 'x'), ('join_style', CapStyle.FlatCap), ('stroke_alpha', 'x'), ('stroke_color', 12), ('stroke_color', '#12'), ('fill_color', '#12'), ('fill_color', 1.5)]

def refused(case, ctx):
    kind, f = case
    f, v = REFUSED[f]
    cls, fields = CLASSES[kind]
    ctx.state((kind, f, repr(v)))
    ctx.raises((ValueError, TypeError, KeyError), lambda: cls(**{f: v}))
    s = cls()
    ctx.raises((ValueError, TypeError, KeyError), lambda: setattr(s, f, v))
    ctx.eq(observe(s, fields), default(fields), 'style after a refused value')
    ctx.outcome((f, repr(v)))

def refused_cases(tier):
    for kind in CLASSES:
        for i in range(len(REFUSED)):
            yield kind, i

# histories over up to three styles
H_OPS = [('new', 'path'), ('new', 'bezier'), ('clone', 0), ('clone', -1)] + \
        [('set', who, f, v) for who in (0, -1) for f, v in (('stroke_style', StrokeStyle.DotLine), ('line_width', 4.), ('stroke_color', 'lime'), ('stroke_alpha', .5), ('fill_color', '#0a0b0c'), ('join_style', JoinStyle.RoundJoin))]

def histories(case, ctx):
    styles, models = [GraphicBezierStyle(control_color='blue')], [dict(default(BEZIER), control_color='#0000ff')]
    for k in case:
        op = H_OPS[k]
        ctx.step()
        if op[0] == 'new':
            cls, fields = CLASSES[op[1]]
            styles.append(cls()); models.append(default(fields))
        elif op[0] == 'clone':
            styles.append(styles[op[1]].clone()); models.append(dict(models[op[1]]))
        else:
            setattr(styles[op[1]], op[2], op[3]); models[op[1]][op[2]] = norm(op[2], op[3])
        for i, (s, m) in enumerate(zip(styles, models)):
            ctx.eq(observe(s, m), m, 'style {}'.format(i))
        ctx.state(tuple(tuple(sorted((k, str(v)) for k, v in m.items())) for m in models))
    ctx.outcome(len(models))

def history_cases(tier):
    yield from seqs_upto(range(len(H_OPS)), 1, 3 if tier == 'quick' else 4)

C_OPS = [('new', '#010203'), ('new', 'ints'), ('clone', 0), ('clone', -1), ('copy', 0), ('copy', -1), ('rename', 0), ('rename', -1)] + \
        [('set', who, n, v) for who in (0, -1) for n in NAMES for v in (7, .5, 1, 1., 0, 0., 255)]

def colour_histories(case, ctx):
    colours, models = [Color('#102030', name='first')], [[[0x10/255, 0x20/255, 0x30/255], 'first']]
    for k in case:
        op = C_OPS[k]
        ctx.step()
        if op[0] == 'new':
            colours.append(Color(op[1]) if op[1][0] == '#' else Color(9, 8, 7)); models.append([[x/255 for x in ((1, 2, 3) if op[1][0] == '#' else (9, 8, 7))], None])
        elif op[0] == 'clone':
            colours.append(colours[op[1]].clone()); models.append([list(models[op[1]][0]), models[op[1]][1]])
        elif op[0] == 'copy':
            colours.append(Color(colours[op[1]])); models.append([list(models[op[1]][0]), None])
        elif op[0] == 'rename':
            colours[op[1]].name = 'other'; models[op[1]][1] = 'other'
        else:
            setattr(colours[op[1]], op[2], op[3]); models[op[1]][0][NAMES.index(op[2])] = op[3]/255 if isinstance(op[3], int) else op[3]
        for i, (c, m) in enumerate(zip(colours, models)):
            vec(ctx, (c.red_float, c.green_float, c.blue_float), m[0], 'colour {}'.format(i), tol=1e-12)
            ctx.eq(c.name, m[1], 'name {}'.format(i))
        for (c, m), (d, o) in itertools.combinations(list(zip(colours, models)), 2):
            if all(abs(x*255 % 1 - .5) > 1e-6 for x in m[0] + o[0]):
                ctx.eq(c == d, [round(x*255) for x in m[0]] == [round(x*255) for x in o[0]], 'equality')
        ctx.state(tuple((tuple(m[0]), m[1]) for m in models))
    ctx.outcome(len(models))

def colour_cases(tier):
    few = [i for i, op in enumerate(C_OPS) if op[0] != 'set' or op[3] in (7, .5)]
    yield from seqs_upto(range(len(C_OPS)), 1, 2 if tier == 'quick' else 3)
    yield from seqs_upto(few, 3, 3 if tier == 'quick' else 4)

def spaces(tier):
    return [Space('components', lambda: comp_cases(tier), components, note='every value of each component against two levels of the others, and the grid of step 17, through every way to make a colour'),
        Space('floats', lambda: float_cases(tier), floats, note='floating components in steps of a quarter of an integer step'),
        Space('hues', lambda: hue_cases(tier), hues, note='hue, light or value, and saturation on a grid, given as floats or whole numbers'),
        Space('refused', lambda: bad_cases(tier), bad, note='invalid texts and components'),
        Space('names', lambda: named_cases(tier), named, note='every name of every table'),
        Space('databases', lambda: db_cases(tier), database, note='every history of additions and look-ups'),
        Space('styles', lambda: style_cases(tier), style_values, note='every field value and every pair of field values, made, set, cloned and changed'),
        Space('refused-style', lambda: refused_cases(tier), refused, note='invalid field values'),
        Space('style-histories', lambda: history_cases(tier), histories, note='every history of making, cloning and changing styles'),
        Space('colour-histories', lambda: colour_cases(tier), colour_histories, note='every history of making, cloning, copying and changing colours')]
