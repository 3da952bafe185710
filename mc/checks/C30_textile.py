"""C30: yarns, fibres, fabrics, needles and seams."""
import itertools, os, shutil, tempfile
from fractions import Fraction as F
from mc.core import Space
from mc.gen import seqs_upto
from Patro.TextileTechnology import Yarn as Y, Fiber as Fi, Fabric as Fa, Needle as N, Seam as S, SewingMachine as M
from Patro.TextileTechnology.Database import Database

PROPERTY = 'C30'
ASSUMPTIONS = ['weights of yarns are positive', 'the stitch, sewing machine, needle and seam data files have no loader in Patro']
TEX = [F(1, 100), F(1, 9), F(1, 2), F(1), F(5, 4), F(9), F(10), F(18), F(30), F(100, 3), F(105), F(1000), F(12345)]

def yarn(case, ctx):
    i, twist, how = case
    x = TEX[i]
    ctx.state(case)
    conv = {'tex2den': x*9, 'den2tex': x/9, 'tex2nm': 1000/x, 'nm2tex': 1000/x}
    for name, want in conv.items():
        ctx.close(getattr(Y, name)(float(x)), float(want), name, tol=1e-12)
    ctx.close(Y.den2tex(Y.tex2den(float(x))), float(x), 'tex to denier and back', tol=1e-12)
    ctx.close(Y.nm2tex(Y.tex2nm(float(x))), float(x), 'tex to metric number and back', tol=1e-12)
    twist = None if twist is None else list(Y.TwistType)[twist]
    value = {'float': float(x), 'text': repr(float(x)), 'exact': x}[how]
    y = Y.Yarn('cotton', 'red', value, twist) if twist is not None else Y.Yarn('cotton', 'red', value)
    ctx.eq((y.fiber, y.color, y.twist_type), ('cotton', 'red', twist), 'yarn')
    ctx.close(y.tex, float(x), 'tex', tol=1e-12)
    ctx.close(y.denier, float(9*x), 'denier', tol=1e-12)
    ctx.close(y.nm, float(1000/x), 'nm', tol=1e-12)
    ctx.outcome((float(x), twist))

def yarn_cases():
    for i, t, how in itertools.product(range(len(TEX)), (None, 0, 1), ('float', 'text', 'exact')):
        yield i, t, how

# fibre files: plants, animals and synthetics, each with names and optional sources
ENTRIES = ['', 'A', 'A B', 'A-1:x']
SYNTH = ['', 'Z', 'Z(src)', 'A', 'Z W(comment)']

def section(spec, source):
    lines = []
    for name in spec:
        if source:
            lines.append('    {}:\n      source: of {}\n'.format(repr(name), name.lower()))
    return ''.join(lines) or '    {}\n'

def fibres_file(case):
    plants, animals, synthetics = case
    text = 'Natural Fibres:\n  Plant Fibres:\n{}  Animal Fibres:\n{}Synthetic Fibres:\n'.format(section(plants, True), section(animals, True))
    model = {}
    for kind, names in (('Plant', plants), ('Animal', animals)):
        for n in names:
            model.setdefault(n, (n, Fi.FiberType.Natural, Fi.FiberType[kind], 'of ' + n.lower()))
    if not synthetics:
        text += '  {}\n'
    for s in synthetics:
        n, _, extra = s.partition('(')
        extra = extra.rstrip(')')
        text += '  {}:'.format(n) + {'': ' null\n', 'src': '\n    source: made\n', 'comment': '\n    comment: text\n'}[extra]
        model.setdefault(n, (n, Fi.FiberType.Synthetic, None, 'made' if extra == 'src' else None))
    return text, model

def fibres(case, ctx):
    ctx.state(case)
    text, model = fibres_file(case)
    d = tempfile.mkdtemp(prefix='mc-fibre-')
    try:
        path = os.path.join(d, 'fibre.yaml')
        with open(path, 'w') as fh:
            fh.write(text)
        db = Fi.FiberDatabase()
        ctx.eq(len(db), 0, 'new data base')
        db.load(path)
    finally:
        shutil.rmtree(d)
    compare(ctx, db, model)
    ctx.outcome(tuple(model))

def rewritten(case, ctx):
    """files written at the same place, each loaded when it is there"""
    ctx.state(case)
    d = tempfile.mkdtemp(prefix='mc-fibre-')
    live = []
    try:
        path = os.path.join(d, 'fibre.yaml')
        for k in case:
            text, model = fibres_file(FILES[k])
            with open(path, 'w') as fh:
                fh.write(text)
            db = Fi.FiberDatabase()
            db.load(path)
            ctx.step()
            live.append((db, model))
            for db, model in live:
                compare(ctx, db, model)
    finally:
        shutil.rmtree(d)

FILES = [((), (), ()), (('A',), (), ()), ((), ('A',), ('Z',)), (('A B',), ('C',), ('Z(src)', 'A')), (('A', 'A-1:x'), (), ('Z(src)',))]

def compare(ctx, db, model):
    ctx.eq(len(db), len(model), 'number of fibres')
    ctx.eq([f.name for f in db], list(model), 'fibres in order')
    for n, want in model.items():
        f = db[n]
        ctx.eq((f.name, f.fiber_type, f.source_type, f.source), want, 'fibre {}'.format(n))
    ctx.raises(KeyError, lambda: db['no such fibre'])

def subsets(names, n):
    for k in range(n + 1):
        yield from itertools.combinations(names, k)

def fibre_cases():
    for p in subsets(ENTRIES[1:], 3):
        for a in subsets(ENTRIES[1:] + ['C'], 2):
            for s in subsets(SYNTH[1:2] + SYNTH[3:], 2):
                yield p, a, s
            yield p, a, ('Z(src)',)
            yield p, a, ('Z(src)', 'A')

def parse_fibres():
    """own reading of fiber.yaml: indentation only"""
    from Patro.TextileTechnology import Fiber
    path = os.path.join(os.path.dirname(Fiber.__file__), 'data', 'fiber.yaml')
    model, stack = {}, []
    for line in open(path):
        body = line.split('#')[0].rstrip()
        if not body.strip() or body.strip().startswith('- '):
            continue
        depth = (len(body) - len(body.lstrip()))//2
        key, _, value = body.strip().partition(':')
        stack[depth:] = [key]
        if stack[0].startswith('Natural') and depth == 2:
            model[key] = [key, Fi.FiberType.Natural, Fi.FiberType.Plant if stack[1].startswith('Plant') else Fi.FiberType.Animal, None]
        elif stack[0].startswith('Synthetic') and depth == 1:
            model[key] = [key, Fi.FiberType.Synthetic, None, None]
        elif key == 'source':
            model[stack[-2]][3] = value.strip()
    return {k: tuple(v) for k, v in model.items()}

def default_data(case, ctx):
    model = parse_fibres()
    ctx.check(len(model) > 30 and {'Cotton', 'Silk', 'Nylon'} <= set(model), 'fibres of the data file: {}', list(model))
    db = Fi.FiberDatabase()
    for turn in range(case):
        db.load()
        compare(ctx, db, model)
        ctx.state((case, turn))
    ctx.outcome(len(model))

class Thing:
    def __init__(self, name, value):
        self.name, self.value = name, value

def database(case, ctx):
    db, model = Database(), {}
    for name, value in case:
        ctx.step()
        db.add(Thing(name, value))
        model.setdefault(name, value)
        ctx.eq(len(db), len(model), 'length')
        ctx.eq([(t.name, t.value) for t in db], list(model.items()), 'items: the first of a name stays')
        ctx.eq([db[n].value for n in model], list(model.values()), 'look-up')
        ctx.state(tuple(model.items()))
    ctx.eq(len(Database()), 0, 'another data base')
    ctx.outcome(tuple(model.items()))

NUMBERS = [0, 1, -2.5, '3.5']
FABRIC = ['bending', 'stretch', 'shear', 'friction', 'weight', 'shrinkage', 'pressure']
PAIRS = ('bending', 'stretch', 'shrinkage')
def fabric(case, ctx):
    cls, field, i, j, shrink = case
    cls = [Fa.Fabric, Fa.WovenFabric][cls]
    kw = dict(bending=(1, 2), stretch=(3, 4), shear=5, friction=6, weight=7, pressure=8)
    if shrink:
        kw['shrinkage'] = (9, 10)
    if field is not None:
        kw[field] = (NUMBERS[i], NUMBERS[j]) if field in PAIRS else NUMBERS[i]
    f = cls(**kw)
    ctx.state(case)
    want = dict(kw)
    want.setdefault('shrinkage', (0, 0))
    # the fabric keeps them under names which are its own business
    keep = lambda x: [float(y) for y in x] if isinstance(x, (list, tuple)) else float(x)
    ctx.eq(sorted(map(repr, vars(f).values())), sorted(repr(keep(want[n])) for n in FABRIC), 'values kept')
    for name in kw:
        if name != 'shrinkage':
            less = dict(kw); del less[name]
            ctx.raises(KeyError, lambda: cls(**less))
    ctx.outcome(repr(want))

def fabric_cases():
    for c in (0, 1):
        for s in (0, 1):
            yield c, None, 0, 0, s
            for f in FABRIC:
                for i in range(len(NUMBERS)):
                    for j in range(len(NUMBERS)) if f in PAIRS else (0,):
                        yield c, f, i, j, s

def others(case, ctx):
    kind, a, b, c = case
    ctx.state(case)
    if kind == 'seam':
        ctx.eq(S.AstmSeam(a, b, c).name, a + b + '-' + str(c), 'seam')
        ctx.eq(S.AstmSeamClass(a).name, a, 'seam class')
    elif kind == 'needle':
        for n in (N.Needle(a, b, c), N.Needle(a, b, str(c), 1)):
            ctx.eq((n.system, n.type, n.nm_size, n.multiplicity), (a, b, c, 1), 'needle')
        n = N.Needle(a, b, c, 2)
        ctx.eq((n.system, n.type, n.nm_size, n.multiplicity), (a, b, c, 2), 'twin needle')
        s = N.NeedleSystem(a, b)
        ctx.eq((s.name, s.description), (a, b), 'needle system')
        for mod in (N, M):
            t = mod.NeedleType(a, b, 'x')
            ctx.eq((t.name, t.description, t.fabric_use), (a, b, 'x'), 'needle type')
        n = M.Needle(a, b, c)
        ctx.eq((n.system, n.type, n.size, n.multiplicity), (a, b, c, 1), 'needle of a machine')
    else:
        e = {'fabric': Fa.FabricType, 'weave': Fa.WeaveType, 'twist': Y.TwistType, 'fibre': Fi.FiberType, 'bed': M.BedType}[kind]
        names = {'fabric': ['WovenFabric', 'KnittedFabric', 'NonWovenFabric', 'BraidedFabric'], 'weave': ['Plain', 'Satin', 'Twill'], 'twist': ['S', 'Z'],
                 'fibre': ['Animal', 'Natural', 'Plant', 'Synthetic'], 'bed': ['FlatBed', 'CylinderBed', 'PostBed', 'OffTheArm']}[kind]
        ctx.eq(sorted(x.name for x in e), sorted(names), 'members')
        ctx.eq(len({x.value for x in e}), len(names), 'distinct values')
        ctx.eq([e(x.value) for x in e], list(e), 'members by value')
        ctx.eq(Fa.WovenFabric.__fabric_type__, Fa.FabricType.WovenFabric, 'woven')
    ctx.outcome(case)

def other_cases():
    for k in ('fabric', 'weave', 'twist', 'fibre', 'bed'):
        yield k, 0, 0, 0
    for a in ('SS', 'LS', 'BS', 'FS', 'OS', 'EF'):
        for b in ('a', 'b', 'aa'):
            for c in (1, 2, 12):
                yield 'seam', a, b, c
    for a in ('130/705 H', 'DBx1'):
        for b in ('universal', 'jeans'):
            for c in (60, 75, 110):
                yield 'needle', a, b, c

def spaces(tier):
    n = 4 if tier == 'quick' else 6
    return [Space('yarns', yarn_cases, yarn, 'yarn weights x twists'),
            Space('fibres', fibre_cases, fibres, 'every file of up to 3 plant, 2 animal and 2 synthetic fibres'),
            Space('rewritten', lambda: seqs_upto(range(len(FILES)), 2, n), rewritten, 'every sequence of 2 to {} of 5 files written and loaded at one place'.format(n)),
            Space('default', [1, 2], default_data, 'the fibres of Patro, loaded once and twice'),
            Space('databases', lambda: seqs_upto([(a, b) for a in ('x', 'X', 'x ', '') for b in (1, 2)], 0, n), database, 'every history of additions of depth {}'.format(n)),
            Space('fabrics', fabric_cases, fabric, 'every field x every value'),
            Space('others', other_cases, others, 'seams, needles and enumerations')]
