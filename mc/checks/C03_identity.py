"""C03 identity of the construction steps: ids, references, dependencies, regenerated code, isolation of patterns."""
import itertools

from mc.core import Space
from mc.gen import seqs_upto
from mc.patterns import *
from mc.checks import C01_pattern as C01

from Patro.GraphicStyle import Color

PROPERTY = 'C03'

####################################################################################################
# ids and lookups over histories on two patterns of two scopes

def id_ops(tier):
    ops = []
    for k in (0, 1, 2): # sketches 0 and 1 are in the first pattern, 2 in the second
        ops.append(['auto', k])
        for v in (0, 1, 4):
            if k == 2 and v == 1:
                continue
            ops.append(['id', k, v])
        ops.append(['bad', k])
    ops.append(['line', 0])
    ops.append(['eval', 0])
    ops.append(['eval', 2])
    ops.append(['drop', 1])
    return ops

def id_cases(tier):
    n = len(id_ops(tier))
    for ops in seqs_upto(range(n), 1, 4 if tier == 'quick' else 5):
        yield list(ops)

def ids(case, ctx):
    table = id_ops('')
    patterns = [Pattern(measurements(), 'cm') for _ in range(2)]
    sketches = [patterns[0].add_scope('a').sketch, patterns[0].add_scope('b').sketch, patterns[1].add_scope('a').sketch]
    owner = [0, 0, 1]
    attributed = [[], []]
    model = [{}, {}, {}] # id or name -> operation
    count = [0, 0, 0]
    for i in case:
        op = table[i]
        kind, k = op[0], op[1]
        s = sketches[k]
        p = owner[k]
        ctx.step()
        if kind in ('auto', 'id', 'line'):
            id = op[2] if kind == 'id' else None
            name = 'P{}'.format(count[k])
            def add():
                kw = {} if id is None else {'id': id}
                if kind == 'line' and count[k]:
                    return s.Line('P0', 'P0', **kw)
                return s.SinglePoint(name, count[k], k, Vector2D(0, 0), **kw)
            if id is not None and id in attributed[p]:
                ctx.raises(NameError, add, 'id {} is attributed twice in {}'.format(id, [table[x] for x in case]))
                n = len(s.operations)
                ctx.eq(n, len([x for x in model[k] if isinstance(x, int)]), 'operations after a refusal')
                continue
            o = add()
            if id is not None:
                ctx.eq(o.id, id, 'explicit id')
            else:
                ctx.check(isinstance(o.id, int) and all(o.id > x for x in attributed[p]), 'automatic id {} after {}', o.id, attributed[p])
            attributed[p].append(o.id)
            ctx.eq(int(o), o.id, 'int(operation)')
            model[k][o.id] = o
            if not (kind == 'line' and count[k]):
                model[k][name] = o
                count[k] += 1
            ctx.check(o.sketch is s, 'sketch of the operation')
        elif kind == 'bad':
            ctx.raises(KeyError, lambda: s.Line('nope', 'P0', id=9), 'reference to an unknown point')
            ctx.raises(KeyError, lambda: s.EndLinePoint('Q', 'nope', 0, 1, Vector2D(0, 0)), 'reference to an unknown point')
        elif kind == 'eval':
            s.eval()
        elif kind == 'drop':
            patterns[0].remove_scope('b')
        # every lookup in every sketch
        for j, sk in enumerate(sketches):
            ctx.eq([o.id for o in sk.operations], [x for x in model[j] if isinstance(x, int)], 'operations of sketch {}'.format(j))
            for key in list(range(-1, 12)) + ['P0', 'P1', 'P2', 'P3', 'Q', 'nope']:
                have = key in model[j]
                if sk.has_operation_id(key) != have:
                    ctx.check(False, 'has_operation_id({!r}) in sketch {} after {}', key, j, [table[x] for x in case])
                if have and sk.get_operation(key) is not model[j][key]:
                    ctx.check(False, 'get_operation({!r}) in sketch {} after {}', key, j, [table[x] for x in case])
    ctx.state([sorted(a) for a in attributed])
    for a in attributed:
        ctx.eq(len(set(a)), len(a), 'unique ids')

####################################################################################################
# scopes

def scope_cases(tier):
    ops = [['add', 'a'], ['add', 'b'], ['remove', 'a'], ['remove', 'b'], ['remove', 'zz'], ['get', 'a'], ['get', 0], ['get', 'zz']]
    for seq in seqs_upto(range(len(ops)), 1, 4 if tier == 'quick' else 5):
        yield [ops[i] for i in seq]

def scopes(case, ctx):
    m = measurements()
    pattern = Pattern(m, 'inch')
    other = Pattern(m, 'mm')
    model = []
    for kind, name in case:
        ctx.step()
        if kind == 'add':
            sc = pattern.add_scope(name)
            ctx.eq((sc.name, sc.unit), (name, 'inch'), 'new scope')
            ctx.check(sc.measurements is m and sc.sketch.pattern is sc and sc.sketch.unit == 'inch', 'new scope')
            model.append(sc)
        elif kind == 'remove':
            pattern.remove_scope(name)
            for sc in model:
                if sc.name == name:
                    model.remove(sc)
                    break
        elif isinstance(name, str):
            first = [sc for sc in model if sc.name == name]
            got = pattern.scope(name)
            ctx.check(got is (first[0] if first else None), 'scope({})', name)
        elif model:
            ctx.check(pattern.scope(name) is model[name], 'scope({})', name)
        ctx.check([id(s) for s in pattern.scopes] == [id(s) for s in model], 'scopes after {}', case)
        ctx.eq(pattern.scope_names(), [s.name for s in model], 'scope names')
        ctx.eq(list(other.scopes), [], 'scopes of another pattern')
    ctx.eq(len({id(s.sketch) for s in model}), len(model), 'one sketch per scope')
    ctx.state([s.name for s in model])

####################################################################################################
# dependencies and regenerated code of every step

def step_deps(step, names):
    d = {names[i] for i in step_points(step)}
    for f in step[1 + ARITY[step[0]]:]:
        if isinstance(f, str):
            for n in names:
                for p in ('Line_', ):
                    for tok in f.replace('*', ' ').replace('/', ' ').split():
                        if tok.lstrip('-').startswith(('Line_', 'AngleLine_')) and n in tok.split('_')[1:]:
                            d.add(n)
    return d

def code_cases(tier):
    # exact duplicates of the programs of C01 with solutions, plus styles
    for c in C01.one_cases(tier):
        yield ['program', c, 0, 0]
    for k, c in enumerate(C01.inv_cases('thorough')):
        if k % 972 == 0:
            prog = c[0]
            for st in range(len(STYLES)):
                for co in range(len(COLORS)):
                    yield ['styled', [0, prog], st, co]

def code(case, ctx):
    _, prog, st, co = case
    program = C01.program_of(prog)
    style, color = STYLES[st], COLORS[co]
    sketch = new_sketch()
    points = []
    ops = [add_step(sketch, s, points, style=style if case[0] == 'styled' else None, color=color if case[0] == 'styled' else None) for s in program]
    ctx.state(prog)
    try:
        sketch.eval()
        evaluated = True
    except Exception:
        evaluated = False
    names = [p.name for p in points]
    if evaluated:
        n = 0
        for s, o in zip(program, ops):
            ctx.eq({p.name for p in o.dependencies}, step_deps(s, names[:n]), 'dependencies of {} in {}'.format(s, program))
            ctx.check(all(p is sketch.get_operation(p.id) for p in o.dependencies), 'a dependency is not a step of the sketch')
            if s[0] in POINT_KINDS:
                n += 1
    # rebuild
    codes = [o.to_python() for o in ops]
    sketch2 = new_sketch()
    env = {'sketch': sketch2, 'Vector2D': Vector2D, 'StrokeStyle': StrokeStyle, 'Color': Color, 'Colors': Colors}
    for k in ('SinglePoint', 'AlongLinePoint', 'EndLinePoint', 'LineIntersectPoint', 'NormalPoint', 'PointOfContact', 'PointOfIntersection', 'Line', 'SimpleInteractiveSpline'):
        env[k] = (lambda k: lambda sketch, *a, **kw: getattr(sketch, k)(*a, **kw))(k)
    ops2 = []
    for c in codes:
        ctx.step()
        try:
            ops2.append(eval(c, env))
        except SyntaxError as e:
            ctx.check(False, 'the regenerated code {} is not valid', c)
    ctx.eq([o.to_python() for o in ops2], codes, 'code of the rebuilt steps')
    for a, b in zip(ops, ops2):
        ctx.check(type(a) is type(b), 'kind')
        for attr in ('name', 'x', 'y', 'length', 'angle', 'radius', 'angle1', 'length1', 'angle2', 'length2', 'line_style', 'line_color', 'label_offset'):
            if hasattr(a, attr):
                u, v = getattr(a, attr), getattr(b, attr)
                if attr == 'label_offset':
                    u, v = (u.x, u.y), (v.x, v.y)
                elif attr in ('line_style', 'line_color'):
                    u, v = str(u), str(v)
                else:
                    u, v = str(u), str(v)
                ctx.eq(v, u, '{} of the step rebuilt from {}'.format(attr, a.to_python()))
        for attr in ('first_point', 'second_point', 'base_point', 'center', 'point1_line1', 'point2_line1', 'point1_line2', 'point2_line2'):
            if hasattr(a, attr):
                ctx.eq(getattr(b, attr).name, getattr(a, attr).name, attr)
                ctx.check(getattr(b, attr).sketch is sketch2, 'a reference leaves the sketch')
    if evaluated:
        sketch2.eval()
        for a, b in zip(ops, ops2):
            if hasattr(a, 'vector') and finite(a.vector):
                ctx.vec(b.vector, (a.vector.x, a.vector.y), 'position of the rebuilt point')

####################################################################################################
# isolation: every interleaving of building and evaluating two patterns (and two scopes of one)

PROGS = [
    [['single', 0, 0], ['single', 'w', 3], ['along', 0, 1, 'CurrentLength/2 + @m']],
    [['single', 1, 1], ['single', 5, '@m'], ['normal', 0, 1, 'AngleLine_A_A1', 'Line_A_A1']],
    [['single', -1, 0], ['end', 0, 30, 'w'], ['contact', 0, 1, 0, '@m']],
]

def iso_cases(tier):
    for a, b in itertools.product(range(len(PROGS)), repeat=2):
        for same in (True, False):
            # 3 steps and 2 evaluations (after step 2 and at the end) each: 5 actions
            for pos in itertools.combinations(range(10), 5):
                yield [a, b, same, list(pos)]

def iso(case, ctx):
    a, b, same, pos = case
    ctx.state(case)
    old = MEAS.copy()
    p1 = Pattern(measurements(), 'cm')
    sk = [p1.add_scope('x').sketch]
    if same:
        sk.append(p1.add_scope('x').sketch)
    else:
        m = ValentinaMeasurements('cm')
        for k, v in MEAS.items():
            m.add(k, str(v*3 + 1))
        sk.append(Pattern(m, 'cm').add_scope('x').sketch)
    prog = [PROGS[a], PROGS[b]]
    points = [[], []]
    ops = [[], []]
    todo = [[0, 1, 'e', 2, 'e'], [0, 1, 'e', 2, 'e']]
    it = [iter(t) for t in todo]
    for i in range(10):
        j = 0 if i in pos else 1
        act = next(it[j])
        ctx.step()
        if act == 'e':
            sk[j].eval()
        else:
            ops[j].append(add_step(sk[j], prog[j][act], points[j]))
    seen = set()
    for j in (0, 1):
        if j == 1 and not same:
            for k in MEAS:
                MEAS[k] = old[k]*3 + 1
        try:
            pts = check_program(ctx, prog[j], ops[j])
        finally:
            MEAS.update(old)
        ctx.check(all(p is not None for p in pts), 'no position')
        ctx.eq([o.id for o in sk[j].operations], [o.id for o in ops[j]], 'operations')
        for o in ops[j]:
            ctx.check(sk[j].get_operation(o.id) is o and sk[j].get_operation(o.name) is o, 'lookup')
            ctx.check(all(d.sketch is sk[j] for d in o.dependencies), 'a dependency is in another pattern')
            if same:
                ctx.check(o.id not in seen, 'id {} is used twice in the pattern', o.id)
                seen.add(o.id)
                ctx.check(not sk[1 - j].has_operation_id(o.id), 'the id of another scope is visible')
    if not same:
        ctx.eq([o.id for o in ops[1]], [o.id for o in iso_alone(prog[1])], 'the ids depend on another pattern')

def iso_alone(prog):
    s = new_sketch()
    pts = []
    return [add_step(s, st, pts) for st in prog]

def spaces(tier):
    return [
        Space('ids', lambda: id_cases(tier), ids, 'every history of automatic/explicit/refused additions, evaluations and scope removals up to depth 4 (thorough 5) over 3 sketches of 2 patterns, every lookup after each'),
        Space('scopes', lambda: scope_cases(tier), scopes, 'every history of scope additions, removals and lookups up to depth 4 (5)'),
        Space('code', lambda: code_cases(tier), code, 'dependencies and regenerated code of every one-step program of C01, and of styled programs'),
        Space('isolation', lambda: iso_cases(tier), iso, 'every interleaving (252) of building and evaluating two patterns or scopes, 9 pairs of programs'),
    ]
