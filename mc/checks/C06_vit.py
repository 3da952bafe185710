"""C06 Valentina measurement files: every value, name, note and personal field of a .vit file."""
import datetime
import itertools
import os
import re
import tempfile
from contextlib import nullcontext
from fractions import Fraction as F
from xml.sax.saxutils import escape, quoteattr

from mc.core import Space
from mc.gen import seqs_upto

from Patro.FileFormat.Valentina.Measurement import VitFile
from Patro.Measurement.PersonalData import Gender, PersonalData

PROPERTY = 'C06'

# measurement menus: (Valentina name, value text, full name, description)

MENU = [
    ('height', '46', None, None),
    ('bust_circ', '95 ', 'Bust "round"', 'around & <over>'),
    ('waist', '54.5', '', None),
    ('@ease', '16', 'Aisance été', None),
    ('@neg', ' -3.25', None, 'négatif'),
    ('hip', '(waist - hip_arc)', None, None),
    ('hip_arc', '0', None, ''),
    ('@total', 'waist+@ease', 'Total', 'with ease'),
    ('@half', '(@total/2)', None, None),
    ('both', '@half*@total - @ease', None, None),
    ('third', '2*(height + @neg)/3 - waist*0.5', None, None),
    ('N', '10', None, None),
    ('beta', 'N*N + 1', None, None),
]
INDEX = {m[0]: i for i, m in enumerate(MENU)}
TOKEN = re.compile(r'@?[A-Za-z_]\w*')

def refs(text):
    return [t for t in TOKEN.findall(text)]

def exact(name):
    text = MENU[INDEX[name]][1].strip()
    out, pos = '', 0
    for m in re.finditer(r'@?[A-Za-z_]\w*|\d+(?:\.\d+)?', text):
        out += text[pos:m.start()]
        t = m.group()
        out += 'F({!r})'.format(t) if t[0].isdigit() else '({!r})'.format(exact(t)).replace('Fraction', 'F')
        pos = m.end()
    return eval(out + text[pos:], {'F': F})

def closure(indices):
    """the menu entries with the ones they refer to, these ones at the end"""
    todo = list(indices)
    for i in todo:
        for r in refs(MENU[i][1]):
            if INDEX[r] not in todo:
                todo.append(INDEX[r])
    return todo

HEAD = "<?xml version='1.0' encoding='UTF-8'?>\n"

def m_xml(i, order=0):
    name, value, full, desc = MENU[i]
    a = [('name', name), ('value', value), ('full_name', full), ('description', desc)]
    if order == 1:
        a.reverse()
    elif order == 2:
        a = a[2:] + a[:2]
    return '<m {}/>'.format(' '.join('{}={}'.format(k, quoteattr(v)) for k, v in a if v is not None))

def element(tag, v):
    """None: absent, '': empty element, else its text"""
    if v is None:
        return ''
    return '<{}/>'.format(tag) if v == '' else '<{0}>{1}</{0}>'.format(tag, escape(v))

def document(ms='', unit='cm', pm='998', personal=None, head=HEAD, comments=(), before=''):
    """comments: the places where a comment is written"""
    c = lambda k: '<!-- remark {} -->'.format(k) if k in comments else ''
    p = '' if personal is None else '<personal>{}{}</personal>'.format(c('personal'), personal)
    return ('{head}{c0}<vit>{c1}<version>0.3.3</version><read-only>false</read-only><notes/>{u}{pm}{p}{before}'
            '<body-measurements>{c2}{ms}{c3}</body-measurements>{c4}</vit>').format(
                head=head, c0=c('top'), c1=c('root'), u=element('unit', unit), pm=element('pm_system', pm), p=p, before=before,
                c2=c('first'), ms=ms, c3=c('last'), c4=c('end'))

def read(text, ctx, encoding='utf8', as_path=False, directory=None):
    # a fresh directory, or the one given, where the former file is replaced
    with (nullcontext(directory) if directory else tempfile.TemporaryDirectory(prefix='patro-c06-')) as d:
        path = os.path.join(d, 'mesures.vit')
        data = text.encode(encoding)
        with open(path, 'wb') as f:
            f.write(data)
        if as_path:
            import pathlib
            path = pathlib.Path(path)
        v = VitFile(path)
        ctx.step()
        ctx.eq(str(v.path), str(path), 'path')
        ctx.check(os.listdir(d) == ['mesures.vit'] and open(path, 'rb').read() == data, 'reading changed the file')
    return v.measurements

def check_list(ctx, ms, indices):
    got = list(ms)
    ctx.eq([m.valentina_name for m in got], [MENU[i][0] for i in indices], 'measurements in the order of the file')
    ctx.eq([m.name for m in ms.sorted_iter()], sorted(MENU[i][0].replace('@', 'C_') for i in indices), 'sorted by name')
    for m, i in zip(got, indices):
        name, text, full, desc = MENU[i]
        patro = name.replace('@', 'C_')
        ctx.eq(m.name, patro, 'name')
        ctx.eq(m.is_custom(), name[0] == '@', 'custom ' + name)
        ctx.eq(m.full_name, full or '', 'full name of ' + name)
        ctx.eq(m.description, desc or '', 'description of ' + name)
        ctx.check(ms[name] is m and ms[patro] is m and getattr(ms, patro) is m, 'lookup of {}', name)
    # in the reverse order: no value depends on the one asked before
    for m, i in reversed(list(zip(got, indices))):
        w = float(exact(MENU[i][0]))
        ctx.check(type(m.value) is float and abs(m.value - w) <= 1e-9*max(1, abs(w)), 'value of {}: {}, expected {}', m.valentina_name, m.value, w)
        ctx.eq(float(m), m.value, 'float')
    ctx.outcome([float(m) for m in got])

# lists of measurements

def list_cases(tier):
    n = 4 if tier == 'quick' else 5
    seen = set()
    for k in range(n + 1):
        for seq in itertools.permutations(range(len(MENU)), k):
            full = closure(seq)
            for order in (full, full[::-1]):
                if tuple(order) not in seen:
                    seen.add(tuple(order))
                    yield order
    
def run_list(case, ctx):
    ctx.state(case)
    check_list(ctx, read(document(''.join(m_xml(i) for i in case)), ctx), case)

# layout of the document: comments, white space, attribute order, encodings

PLACES = ('top', 'root', 'personal', 'first', 'last', 'end', 'between')

def layout_cases(tier):
    for r in range(len(PLACES) + 1):
        for comments in itertools.combinations(PLACES, r):
            if tier == 'quick' and 3 < r < len(PLACES):
                continue
            for space in (0, 1, 2):
                for order in (0, 1, 2):
                    yield [list(comments), space, order, 'utf8']
    for enc in ('utf8-bare', 'utf-8-sig', 'iso-8859-1', 'utf-16'):
        for order in (0, 1, 2):
            yield [[], order, order, enc]

LAYOUT = [3, 4, 7, 2]

def run_layout(case, ctx):
    comments, space, order, enc = case
    sep = '<!-- b & c -->' if 'between' in comments else ''
    ms = [m_xml(i, order) for i in LAYOUT]
    if space == 1:
        text = document('\n    ' + ('\n    ' + sep).join(ms) + '\n', personal='\n<family-name>Doé</family-name>\n', comments=comments)
    else:
        text = document(sep.join(ms), personal='<family-name>Doé</family-name>', comments=comments)
    if space == 2: # closing tags instead of empty elements
        text = re.sub(r'<(m) ([^<>]*?)/>', r'<m \2></m>', text)
    encoding = 'utf8'
    if enc == 'utf8-bare':
        text = text.replace(HEAD, '')
    elif enc != 'utf8':
        encoding = enc
        text = text.replace('UTF-8', 'UTF-16' if enc == 'utf-16' else enc if enc != 'utf-8-sig' else 'UTF-8')
    ctx.state(text)
    ms = read(text, ctx, encoding, as_path=space == 1)
    check_list(ctx, ms, LAYOUT)
    ctx.eq(ms.personal.last_name, 'Doé', 'family name')
    ctx.eq([ms.unit, ms.pattern_making_system], ['cm', '998'], 'unit, pattern making system')

# header and personal data

FAMILY = (None, '', 'Doe', 'Ößt & Cie')
GIVEN = (None, '', 'Jane', 'Anne <Lou>')
CUSTOMER = (None, '', 'Jane Doe')
BIRTH = (None, '', '1970-01-01', '2000-02-29', '1800-12-31')
GENDERS = (None, '', 'unknown', 'male', 'female')
EMAIL = (None, '', 'a+b@c.org')
FIELDS = ('customer', 'family-name', 'given-name', 'birth-date', 'gender', 'email')

def personal_cases(tier):
    for c in CUSTOMER:
        for f in FAMILY:
            for g in GIVEN:
                for b in BIRTH:
                    for s in GENDERS:
                        for e in EMAIL:
                            yield [c, f, g, b, s, e, 0]
    # in any order, and with comments in between
    for order in range(1, 720 if tier != 'quick' else 720, 1 if tier != 'quick' else 7):
        yield ['Jane Doe', 'Doe', 'Jane', '1970-01-02', 'female', 'a@b.org', order]

def run_personal(case, ctx):
    values, order = case[:6], case[6]
    fields = list(zip(FIELDS, values))
    if order:
        k, rest, out = order, fields, []
        for n in range(6, 0, -1):
            out.append(rest[k % n]); rest = rest[:k % n] + rest[k % n + 1:]; k //= n
        fields = out
    text = document(m_xml(0), personal=('<!-- p -->' if order % 2 else '').join(element(t, v) for t, v in fields))
    ctx.state(text)
    p = read(text, ctx).personal
    ctx.eq(p.customer, values[0] or '', 'customer')
    ctx.eq(p.last_name, values[1] or '', 'family name')
    ctx.eq(p.first_name, values[2] or '', 'given name')
    ctx.eq(p.birth_date, datetime.date(*map(int, values[3].split('-'))) if values[3] else None, 'birth date')
    ctx.check(type(p.birth_date) in (datetime.date, type(None)), 'birth date {!r}', p.birth_date)
    ctx.check(p.gender is Gender[(values[4] or 'unknown').upper()], 'gender {}', p.gender)
    ctx.eq(p.email, values[5] or '', 'email')
    ctx.eq([p.measurement_date, p.comment], [None, ''], 'fields the file does not define')
    ctx.outcome(case)

def header_cases(tier):
    for unit in (None, '', 'cm', 'mm', 'inch'):
        for pm in (None, '', '998', '0', 'p13'):
            for personal in (0, 1, 2):
                for before in (0, 1, 2):
                    yield [unit, pm, personal, before]

def run_header(case, ctx):
    unit, pm, personal, before = case
    text = document(m_xml(1) + m_xml(3), unit, pm, [None, '', '<email>x@y.z</email>'][personal],
                    before=['', '<unknown-element><unit>km</unit><m name="no" value="1"/></unknown-element>', '\n<future attr="1"/>\n'][before])
    ctx.state(text)
    ms = read(text, ctx)
    ctx.check((ms.unit or None) == (unit or None), 'unit {!r}, expected {!r}', ms.unit, unit)
    ctx.check((ms.pattern_making_system or None) == (pm or None), 'pattern making system {!r}, expected {!r}', ms.pattern_making_system, pm)
    ctx.eq(ms.personal.email, 'x@y.z' if personal == 2 else '', 'email')
    ctx.eq([ms.personal.last_name, ms.personal.gender], ['', Gender.UNKNOWN], 'no personal data')
    check_list(ctx, ms, [1, 3])

# several files: histories of readings and edits, each set of measurements stays its own

DOCS = [
    ([0, 3], 'cm', 'Doe', '1970-01-01', 'male'),
    ([3, 2, 7], 'inch', 'Roe', '1980-02-03', 'female'),
    ([2], 'mm', None, None, None),
]
FILE_OPS = ['r0', 'r1', 'r2', 'edit', 'add']

def file_cases(tier):
    yield from (s for s in seqs_upto(FILE_OPS, 1, 4 if tier == 'quick' else 5) if s[0][0] == 'r')

def run_files(case, ctx):
    # the files are written one after another at the same place
    with tempfile.TemporaryDirectory(prefix='patro-c06-') as d:
        run_history(case, ctx, d)

def run_history(case, ctx, directory):
    live = []
    for op in case:
        if op[0] == 'r':
            idx, unit, family, birth, gender = DOCS[int(op[1])]
            text = document(''.join(m_xml(i) for i in idx), unit,
                            personal=None if family is None else element('family-name', family) + element('birth-date', birth) + element('gender', gender))
            live.append([read(text, ctx, directory=directory), [MENU[i][0] for i in idx], unit, family or '', birth, gender or 'unknown'])
        elif op == 'edit':
            e = live[-1]
            ctx.step()
            e[0].unit, e[0].personal.last_name, e[0].personal.birth_date, e[0].personal.gender = 'pt', 'X', '2001-01-01', 'particular'
            e[2:] = 'pt', 'X', '2001-01-01', 'particular'
        else:
            e = live[-1]
            name = 'extra{}'.format(len(e[1]))
            ctx.step()
            e[0].add(name, len(e[1]))
            e[1] = e[1] + [name]
        for ms, names, unit, family, birth, gender in live:
            ctx.eq([m.valentina_name for m in ms], names, 'names after ' + op)
            ctx.eq(ms.unit, unit, 'unit after ' + op)
            ctx.eq(ms.personal.last_name, family, 'family name after ' + op)
            ctx.eq(ms.personal.birth_date, datetime.date.fromisoformat(birth) if birth else None, 'birth date after ' + op)
            ctx.eq(ms.personal.gender.name.lower(), gender, 'gender after ' + op)
            for i, n in enumerate(names):
                w = float(exact(n)) if n in INDEX else float(i)
                ctx.check(abs(ms[n].value - w) < 1e-9, 'value of {} after {}', n, op)
        ctx.state(live)

# personal data by itself: histories of assignments

SETS = [('first_name', 'Jane'), ('first_name', ''), ('last_name', 'Doe'), ('customer', 'Jane Doe'), ('email', 'a@b.c'), ('comment', 'tall'),
        ('birth_date', '1999-12-31'), ('birth_date', datetime.date(1970, 1, 2)), ('birth_date', datetime.datetime(1970, 1, 2, 3, 4)),
        ('birth_date', None), ('measurement_date', '2020-02-29T12:30:15.250Z'), ('measurement_date', datetime.datetime(2021, 2, 3, 4, 5)),
        ('measurement_date', None), ('gender', 'female'), ('gender', 'Male'), ('gender', Gender.PARTICULAR), ('gender', Gender.UNKNOWN.value)]

def stored(key, v):
    if key == 'birth_date' and v is not None:
        return v if type(v) is datetime.date else v.date() if isinstance(v, datetime.datetime) else datetime.date.fromisoformat(v)
    if key == 'measurement_date' and isinstance(v, str):
        return datetime.datetime(2020, 2, 29, 12, 30, 15, 250000)
    if key == 'gender':
        return v if isinstance(v, Gender) else Gender[v.upper()] if isinstance(v, str) else Gender(v)
    return v

DEFAULTS = {'customer': '', 'first_name': '', 'last_name': '', 'birth_date': None, 'measurement_date': None, 'gender': Gender.UNKNOWN,
            'email': '', 'comment': ''}

def data_cases(tier):
    yield from seqs_upto(list(range(len(SETS))), 0, 3 if tier == 'quick' else 4)

def run_data(case, ctx):
    ctx.state(case)
    model = dict(DEFAULTS)
    other = PersonalData()
    p = PersonalData()
    for i in case:
        k, v = SETS[i]
        setattr(p, k, v)
        ctx.step()
        model[k] = stored(k, v)
        ctx.eq({x: getattr(p, x) for x in DEFAULTS}, model, 'after {} = {!r}'.format(k, v))
        ctx.check(type(p.birth_date) in (datetime.date, type(None)), 'a birth date is a date: {!r}', p.birth_date)
    q = PersonalData(**{SETS[i][0]: SETS[i][1] for i in case})
    ctx.eq({x: getattr(q, x) for x in DEFAULTS}, model, 'built with keywords')
    ctx.eq({x: getattr(other, x) for x in DEFAULTS}, DEFAULTS, 'another person')

def spaces(tier):
    return [
        Space('lists', lambda: list_cases(tier), run_list, 'ordered lists of measurements of a 12 entry menu with formulas, closed under reference'),
        Space('layouts', lambda: layout_cases(tier), run_layout, 'comments in 7 places, white space, attribute order, encodings'),
        Space('personal', lambda: personal_cases(tier), run_personal, 'presence, emptiness and value of each personal field; field orders'),
        Space('headers', lambda: header_cases(tier), run_header, 'unit, pattern making system, unknown elements'),
        Space('files', lambda: file_cases(tier), run_files, 'histories of reading files and editing what was read'),
        Space('data', lambda: data_cases(tier), run_data, 'histories of assignments to a PersonalData'),
    ]
