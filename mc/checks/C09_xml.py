"""C09: XML binding of objects, against a dictionary model."""
import itertools, os, tempfile
from lxml import etree
from mc.core import Space
from Patro.Common.Xml.Objectivity import (
    XmlObjectAdaptator, TextXmlObjectAdaptator, BoolAttribute, IntAttribute, FloatAttribute, FloatListAttribute, StringAttribute)
from Patro.Common.Xml.XmlFile import XmlFileMixin

PROPERTY = 'C09'
ASSUMPTIONS = ['an attribute whose value is None is absent from the XML element', 'an attribute is declared once in the hierarchy of a class']

class Plain(XmlObjectAdaptator):
    __tag__ = 'plain'
    __attributes__ = (BoolAttribute('flag'), IntAttribute('number'), FloatAttribute('size'), FloatListAttribute('sizes'), StringAttribute('label'))

class Renamed(XmlObjectAdaptator):
    __tag__ = 'renamed'
    __attributes__ = (BoolAttribute('flag', 'x-flag', True), IntAttribute('number', 'label', 7), FloatAttribute('size', 'number', .5),
                      FloatListAttribute('sizes', 'sizes-list', (1., 2.)), StringAttribute('label', 'size', 'none'))

class M1:
    __attributes__ = (BoolAttribute('flag', 'f'),)
class M2:
    __attributes__ = (IntAttribute('number', default=3), FloatListAttribute('sizes', 'ss'))
class M3(M2):
    __attributes__ = (FloatAttribute('size'),)

class Composed(M1, M3, XmlObjectAdaptator):
    __tag__ = 'composed'
    __attributes__ = (StringAttribute('label', 'name', ''),)

class Composed2(XmlObjectAdaptator, M3, M1):
    __tag__ = 'composed2'
    __attributes__ = (StringAttribute('label', 'name', ''),)

class Base(XmlObjectAdaptator):
    __tag__ = 'base'
    __attributes__ = (BoolAttribute('flag'), IntAttribute('number'))

class Derived(Base, M2.__mro__[0] and type('M4', (), {'__attributes__': (FloatListAttribute('sizes'),)})):
    __tag__ = 'derived'
    __attributes__ = (FloatAttribute('size', 'Size', 9.), StringAttribute('label'))

class Texted(TextXmlObjectAdaptator):
    __tag__ = 'text'
    __attributes__ = (BoolAttribute('flag'), IntAttribute('number'), FloatAttribute('size'), FloatListAttribute('sizes'), StringAttribute('label'))

# class: {python name: (xml name, default)}
DECL = {
    Plain: {k: (k, None) for k in ('flag', 'number', 'size', 'sizes', 'label')},
    Renamed: {'flag': ('x-flag', True), 'number': ('label', 7), 'size': ('number', .5), 'sizes': ('sizes-list', (1., 2.)), 'label': ('size', 'none')},
    Composed: {'flag': ('f', None), 'number': ('number', 3), 'size': ('size', None), 'sizes': ('ss', None), 'label': ('name', '')},
    Composed2: {'flag': ('f', None), 'number': ('number', 3), 'size': ('size', None), 'sizes': ('ss', None), 'label': ('name', '')},
    Derived: {'flag': ('flag', None), 'number': ('number', None), 'sizes': ('sizes', None), 'size': ('Size', 9.), 'label': ('label', None)},
    Texted: {k: (k, None) for k in ('flag', 'number', 'size', 'sizes', 'label')},
}
CLASSES = {c.__name__: c for c in DECL}

# value: texts which mean it
VALUES = {
    'flag': [(True, ('true', '1')), (False, ('false', '0'))],
    'number': [(0, ('0',)), (-12, ('-12',)), (5, ('5', '05', ' 5 '))],
    'size': [(0., ('0', '0.0')), (1.25, ('1.25', '125e-2')), (-1e-300, ('-1e-300',)), (.1, ('.1',))],
    'sizes': [([1., 2., -3.5], ('1 2 -3.5', '1,2,-3.5', '1, 2, -3.5', '1 ,2  -3.5')), ([.1], ('.1',)),
              ([1234567.125, 0.12345678901234567, -1e-300], ('1234567.125 0.12345678901234567 -1e-300',))],
    'label': [('', ('',)), ('a b', ('a b',)), ('<é&">\'', ('<é&">\'',)), ('true', ('true',)), ('1', ('1',))],
}
NAMES = list(VALUES)

def same(a, b):
    if isinstance(b, (list, tuple)):
        return a is not None and not isinstance(a, str) and list(a) == list(b) and all(type(x) is float for x in a)
    return type(a) is type(b) and a == b

def compare(ctx, obj, cls, model, msg, text=None):
    for name, v in model.items():
        g = getattr(obj, name)
        ctx.check(same(g, v), '{}: {} is {!r}, expected {!r}', msg, name, g, v)
    d = obj.to_dict()
    ctx.check(set(d) == set(model) and all(same(d[k], model[k]) for k in model), '{}: to_dict {}', msg, d)
    for ex in NAMES:
        d = obj.to_dict(exclude=(ex,))
        ctx.check(set(d) == set(model) - {ex}, '{}: to_dict without {}: {}', msg, ex, d)
    if text is not None:
        ctx.check(obj.text == text, '{}: text {!r}, expected {!r}', msg, obj.text, text)

def read(cls, element):
    return cls(etree.fromstring(etree.tostring(element)))

def roundtrip(ctx, obj, cls, model, msg, text=None):
    e = obj.to_xml()
    ctx.check(e.tag == cls.__tag__, 'tag {}', e.tag)
    want = {DECL[cls][k][0] for k, v in model.items() if v is not None}
    ctx.check(set(e.attrib) == want, '{}: XML attributes {}, expected {}', msg, dict(e.attrib), want)
    compare(ctx, obj, cls, model, msg + ', after to_xml', text)
    again = cls(etree.fromstring(obj.to_xml_string()))
    back = {k: (v if v is not None else DECL[cls][k][1]) for k, v in model.items()}
    compare(ctx, again, cls, back, msg + ', read back', text)
    e = obj.to_xml(extra='1')
    ctx.check(set(e.attrib) == want | {'extra'}, '{}: additional XML attribute', msg)
    compare(ctx, read(cls, e), cls, back, msg + ', read back with an undeclared attribute', text)

def assignment(case, ctx):
    cname, choice, text = case
    cls = CLASSES[cname]
    ctx.state(case)
    decl = DECL[cls]
    element = etree.Element(cls.__tag__)
    kwargs = {}
    model = {}
    for name, c in zip(NAMES, choice):
        if c is None:
            model[name] = decl[name][1]
        else:
            v, texts = VALUES[name][c[0]]
            model[name] = v
            kwargs[name] = v
            element.set(decl[name][0], texts[c[1] % len(texts)])
    if text is not None:
        element.text = text
        kwargs['text'] = text
    element.set('undeclared', '5')
    kwargs['undeclared'] = 5
    want_text = (text or '') if issubclass(cls, TextXmlObjectAdaptator) else None
    a = read(cls, element)
    compare(ctx, a, cls, model, 'read', want_text)
    ctx.check(not hasattr(a, 'undeclared'), 'an undeclared attribute is read')
    roundtrip(ctx, a, cls, model, 'read', want_text)
    b = cls(**kwargs)
    compare(ctx, b, cls, model, 'made', want_text)
    ctx.check(not hasattr(b, 'undeclared'), 'an undeclared argument is kept')
    roundtrip(ctx, b, cls, model, 'made', want_text)
    # every attribute given, None when absent
    kw = dict(kwargs)
    kw.update({k: None for k in NAMES if k not in kwargs})
    c = cls(**kw)
    compare(ctx, c, cls, {k: (model[k] if k in kwargs else None) for k in NAMES}, 'made with None', want_text)
    # set one by one on an empty object
    d = cls()
    empty = {k: decl[k][1] for k in NAMES}
    compare(ctx, d, cls, empty, 'empty', None)
    for k in NAMES:
        if k in kwargs:
            setattr(d, k, kwargs[k])
            empty[k] = kwargs[k]
    compare(ctx, d, cls, empty, 'set', None)
    if want_text is not None:
        d.text = want_text
    roundtrip(ctx, d, cls, empty, 'set', want_text)
    compare(ctx, a, cls, model, 'the first object', want_text)

def history(case, ctx):
    cnames, ops = case
    classes = [CLASSES[c] for c in cnames]
    objs = [c() for c in classes]
    models = [{k: DECL[c][k][1] for k in NAMES} for c in classes]
    for op in ops:
        ctx.step()
        kind, i = op[0], op[1]
        cls = classes[i]
        if kind == 'set':
            v = VALUES[op[2]][op[3]][0]
            setattr(objs[i], op[2], v)
            models[i][op[2]] = v
        elif kind == 'unset':
            setattr(objs[i], op[2], None)
            models[i][op[2]] = None
        elif kind == 'io':
            objs[i] = cls(etree.fromstring(objs[i].to_xml_string()))
            models[i] = {k: (v if v is not None else DECL[cls][k][1]) for k, v in models[i].items()}
        elif kind == 'new':
            objs[i] = cls(number=4)
            models[i] = {k: DECL[cls][k][1] for k in NAMES}
            models[i]['number'] = 4
        for o, c, m in zip(objs, classes, models):
            compare(ctx, o, c, m, 'after {}'.format(op))
    ctx.state((cnames, models))

def float_lists(case, ctx):
    values, seps, lead, trail = case
    s = lead + ''.join(v + sep for v, sep in zip(values, list(seps) + [''])) + trail
    ctx.state(s)
    e = etree.Element('plain'); e.set('sizes', s)
    got = read(Plain, e).sizes
    # XML normalises blanks of an attribute to spaces
    ctx.check(same(got, [float(v) for v in values]), 'sizes {!r} read as {!r}', s, got)
    ctx.check(same(Plain(sizes=s).sizes, [float(v) for v in values]), 'sizes {!r}', s)
    obj = Plain(sizes=[float(v) for v in values])
    ctx.check(same(read(Plain, obj.to_xml()).sizes, [float(v) for v in values]), 'round trip of {}', values)

def errors(case, ctx):
    name, text = case
    ctx.state(case)
    e = etree.Element('plain'); e.set(name, text)
    ctx.raises(ValueError, lambda: read(Plain, e), '{} = {!r}'.format(name, text))

def nones(case, ctx):
    ctx.state(case)
    e = etree.Element('plain'); e.set('sizes', 'none')
    ctx.eq(read(Plain, e).sizes, None, 'sizes = none')

def hierarchy(case, ctx):
    # classes 0..n-1 are mixins with the given bases, each with one attribute; the last one is the element
    bases, position = case
    ctx.state(case)
    made = []
    for i, bs in enumerate(bases):
        last = i == len(bases) - 1
        parents = [made[b] for b in bs]
        ns = {'__attributes__': (IntAttribute('a%d' % i, 'x%d' % i, 10 + i),)}
        if last:
            parents.insert(min(position, len(parents)), XmlObjectAdaptator)
            ns['__tag__'] = 'x'
        try:
            cls = type(XmlObjectAdaptator)('K%d' % i, tuple(parents), ns) if last else type('K%d' % i, tuple(parents), ns)
        except TypeError:
            return # no linearisation
        made.append(cls)
    bound = set()
    todo = [len(bases) - 1]
    while todo:
        i = todo.pop()
        if i not in bound:
            bound.add(i)
            todo += bases[i]
    cls = made[-1]
    o = cls()
    ctx.eq(o.to_dict(), {'a%d' % i: 10 + i for i in bound}, 'defaults')
    ctx.eq(dict(o.to_xml().attrib), {'x%d' % i: str(10 + i) for i in bound}, 'XML attributes')
    o = cls(**{'a%d' % i: i for i in range(len(bases))})
    ctx.eq(o.to_dict(), {'a%d' % i: i for i in bound}, 'arguments')
    p = cls(o.to_xml())
    ctx.eq({i: getattr(p, 'a%d' % i) for i in bound}, {i: i for i in bound}, 'read back')
    for i in bound:
        setattr(p, 'a%d' % i, -1)
        ctx.eq(p.to_xml().attrib['x%d' % i], '-1', 'attribute set')
        ctx.eq(getattr(o, 'a%d' % i), i, 'attribute of the other object')

def hierarchies(tier):
    def subsets(n):
        for k in range(n + 1):
            yield from itertools.permutations(range(n), k)
    for n in (1, 2, 3, 4) if tier != 'thorough' else (1, 2, 3, 4, 5):
        for bases in itertools.product(*[list(subsets(i)) if n < 5 or i < 3 else [s for s in subsets(i) if len(s) <= 2] for i in range(n)]):
            if bases[-1] or n == 1:
                for position in range(len(bases[-1]) + 1):
                    yield [list(map(list, bases)), position]

def files(case, ctx):
    doc, how = case
    ctx.state(case)
    root = etree.fromstring(doc)
    if how == 'str':
        f = XmlFileMixin(None, '\n  ' + doc + '\n'); tree = f.parse()
    elif how == 'bytes':
        f = XmlFileMixin(None, doc.encode()); tree = f.parse()
    else:
        with tempfile.TemporaryDirectory(prefix='mc-c09-') as tmp:
            p = os.path.join(tmp, 'é.xml')
            open(p, 'w', encoding='utf-8').write(doc)
            f = XmlFileMixin(p); tree = f.parse()
            ctx.check(str(f.path) == p, 'path')
    ctx.check(etree.tostring(tree) == etree.tostring(root), 'parse')
    for tag in ('a', 'b', 'c', 'zz'):
        e = root.findall(tag)
        ctx.eq([etree.tostring(x) for x in f.get_xpath_elements(tree, tag)], [etree.tostring(x) for x in e], 'elements ' + tag)
        x = f.get_xpath_element(tree, tag)
        ctx.check((x is None) == (not e) and (x is None or etree.tostring(x) == etree.tostring(e[0])), 'element ' + tag)
        ctx.eq(f.get_text_element(tree, tag), e[0].text if e else None, 'text of ' + tag)

def spaces(tier):
    T = tier == 'thorough'
    opts = {n: [None] + [[i, j] for i, (v, t) in enumerate(VALUES[n]) for j in range(len(t) if T else 1)] for n in NAMES}
    def assigns():
        for c in CLASSES:
            for choice in itertools.product(*[opts[n] for n in NAMES]):
                yield [c, list(choice), None]
    def texts():
        for text in (None, '', 'x', ' a\nb ', '<é&">', 'None', '1'):
            for n, choice in enumerate(itertools.product(*[opts[k][:2] for k in NAMES])):
                yield ['Texted', list(choice), text]
    def forms():
        # one attribute at a time, every text form
        for c in CLASSES:
            for k, n in enumerate(NAMES):
                for i, (v, t) in enumerate(VALUES[n]):
                    for j in range(len(t)):
                        choice = [None]*5; choice[k] = [i, j]
                        yield [c, choice, None]
    ops = []
    for i in (0, 1):
        for n in NAMES:
            ops += [['set', i, n, 0], ['set', i, n, 1], ['unset', i, n]]
        ops += [['io', i], ['new', i]]
    pairs = [['Plain', 'Plain'], ['Plain', 'Renamed'], ['Composed', 'Composed2'], ['Derived', 'Derived'], ['Renamed', 'Renamed']]
    hist = lambda: ([p, list(o)] for p in pairs for k in range(4 if T else 3) for o in itertools.product(ops, repeat=k))
    few = [['set', 0, 'number', 0], ['set', 1, 'number', 2], ['set', 0, 'sizes', 0], ['set', 1, 'sizes', 1], ['unset', 0, 'sizes'], ['io', 0], ['io', 1], ['new', 0]]
    hist2 = lambda: ([p, list(o)] for p in pairs for o in itertools.product(few, repeat=5 if T else 4))
    seps = [' ', ',', ', ', ' ,', '  ', '\n', '\t', ' , ']
    fl = lambda: ([list(v), list(s), l, t] for n in (1, 2, 3) for v in ((['1', '-2.5', '1e3'][:n]), (['0', '.5', '-1'][:n])) for s in itertools.product(seps, repeat=n-1) for l in ('', ' ') for t in ('', ' '))
    bad = [['flag', x] for x in ('', 'True', 'yes', '2', 'FALSE')] + [['number', x] for x in ('', 'a', '1.5', '1 2')] + [['size', x] for x in ('', 'a', '1,5', '1 2')] + [['sizes', x] for x in ('a', '1 b', '1;2')]
    docs = [['<r>{}</r>'.format(''.join(t)), h] for n in range(4) for t in itertools.product(['<a>x</a>', '<a/>', '<b>é&amp;</b>', '<c> <a>y</a></c>'], repeat=n) for h in ('str', 'bytes', 'file')]
    return [
        Space('assignments', assigns, assignment, 'every combination of absent or present attributes and values of 6 classes'),
        Space('forms', forms, assignment, 'every textual form of every value'),
        Space('text', texts, assignment, 'text content x attributes'),
        Space('histories', hist, history, 'every sequence of 34 operations on two objects up to 2 (thorough 3)'),
        Space('histories-deep', hist2, history, 'every sequence of 4 (thorough 5) of 8 operations'),
        Space('float-lists', fl, float_lists, 'every separator between 1-3 numbers'),
        Space('errors', bad, errors, 'ill formed values are rejected'),
        Space('none', [0], nones, 'the list none'),
        Space('hierarchies', lambda: hierarchies(tier), hierarchy, 'every hierarchy of up to 4 (thorough 5) classes, each inheriting any ordered subset of the previous ones, the adaptator at any position among the bases'),
        Space('files', docs, files, 'documents from text, bytes and files'),
    ]
