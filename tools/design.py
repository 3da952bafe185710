#!/usr/bin/env python3
"""Regenerate /verif/DESIGN.md (development tool): the prose below, the spaces and bounds of every check, the last
quick costs (evidence/), the known findings and the planted bugs with what catches them (tools/detection.json)."""
import glob, importlib, json, os, sys, warnings
warnings.simplefilter('ignore')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, '/repo']
os.environ.update(QT_QPA_PLATFORM='offscreen', MPLBACKEND='Agg')

INTRO = '''# DESIGN

*Generated by `tools/design.py`; the prose is there, the spaces and bounds come from the checks themselves.*

Patro is a library: pattern drafting (construction steps, formulas, measurements), Valentina files, a plane geometry
engine, an SVG/DXF reader, a graphic scene with painters, and small helpers.  It is nearly all deterministic sequential
code whose behaviour depends on *inputs* and *histories of operations*; the threaded parts are the counter, the object
identifiers and the singletons.  So the model checking here is **explicit-state / stateless bounded exploration of the
real code**:

* A check (`mc/checks/Cxx_*.py`) declares *spaces*.  A space is a finite set of cases, generated in full, never sampled:
  all the construction programs up to a depth, all operation histories up to a length, all the documents of a grammar up
  to a size, all configurations of a small grid, all thread schedules up to a preemption bound.
* Every case is executed on the code imported from `/repo` (nothing is built: the library is pure Python, each run
  imports the current working tree with bytecode writing disabled), and **every step** is compared with an independent
  reference model: exact rational geometry (`mc/exact.py`), a set/dictionary/list model of the state, an independent
  interpreter of the same commands, an independent reader of the file format or of the painted document.  There is no
  separate abstract model that could drift from the code: the transition relation explored *is* the implementation, and
  the reference model only predicts what has to be observed.  Every explored trace is therefore a trace validated against the
  implementation, which is what `traces_validated_against_impl` counts.
* `mc/core.py` enumerates the spaces on 8 processes, counts states (distinct canonical configurations/histories),
  transitions (implementation operations and oracle comparisons) and traces, turns an oracle mismatch, an unexpected
  exception, an endless call (per-case timeout) or a dead worker into a violation, and writes a replay file
  (`mc/replay.py FILE` runs the case again alone).  A space that turns out empty or without state is an error (exit 3),
  so a check cannot pass vacuously.  `complete` in the evidence says whether a space was finished.
* `mc/sched.py` (C07) is a stateless model checker for Python threads: it replaces the lock factories before the code
  is imported, runs the threads one at a time with a decision before each bytecode instruction of the code under test
  which touches shared state, and enumerates every schedule by depth first replay of choice prefixes, bounded by the number of
  preemptions (unbounded for the smallest program).  Histories are judged by linearisability against the sequential
  counter, deadlocks and double instances are reported with the schedule.

The quick tier finishes in 0.3 s to 90 s per check (table below); the thorough tier uses the larger bounds given in the
notes.  Each run is deterministic: the enumeration order is fixed and `VERIF_SEED` is only recorded.

Why this reaches what unit tests cannot: the 18 stable tests sample a handful of values.  The defects found
here (154 repaired, list in `known_findings.txt`) need an operation *after* a query (stale caches), a *pair* of names
that are prefixes of each other, a value at a degenerate position, an attribute combination, a second object that shares
state with the first one, or a particular schedule: small configurations, but ones nobody had written down.

No property is `not_applicable`: all of them are decided by exhaustive enumeration within bounds.  No hook was needed in
`/repo`.
'''

TEXT = {
'C01': 'Programs of construction steps (all step kinds of `SketchOperation`, references by name, id or object) are built and evaluated by the real `Pattern`/`Sketch`; an independent evaluator computes every point from the geometric definition of the step. Ill-conditioned constructions (coincident, parallel, nearly tangent operands) are required only not to invent a finite answer.',
'C02': 'Formulas are generated with their syntax tree; the oracle evaluates the tree with Python arithmetic and exact Valentina function semantics, and knows the set of names used, which must equal `dependencies`. The names are chosen to collide (prefixes, case, function names).',
'C03': 'A list model of the steps and scopes; after each operation of the history every look-up by id, name and object, the dependency graph and the generated Python code (executed again and compared) are examined.',
'C04': 'A dictionary of formulas evaluated by exact rational recursion; insertion, query and copy histories; files read back and saved twice.',
'C05': 'The written document is parsed with lxml and compared with the Valentina format written down independently in the check, then read back and compared with the source pattern; documents are also generated independently and read.',
'C06': 'Documents are generated with the list of measurements, notes and personal data they declare.',
'C07': 'See the scheduler above: a history is accepted if some sequential order of the operations compatible with real time explains every result.',
'C08': 'A plain adjacency-set model; ancestors, descendants, roots, leafs, BFS order constraints and topological order are recomputed by brute force after each edit. Set iteration order is enumerated through controlled hash values.',
'C09': 'A dictionary per object (python name, XML name, type, default), with class hierarchies enumerated.',
'C10': 'Exact arithmetic on coordinate pairs; aliasing (in-place operators changing an operand) is detected by re-reading all the operands after every operation.',
'C11': 'Matrices as nested tuples multiplied by the check; the declared type of every product is compared with the type computed from the matrix.',
'C12': 'Rational arithmetic orientation and intersection predicates.',
'C13': 'Exact squared lengths, areas, projections; angles through `atan2` of exact products.',
'C14': 'Rational shoelace area and barycentre; simplicity by testing all pairs of edges exactly; containment by an exact crossing count off the boundary; convexity by exact turns.',
'C15': 'Exact monotone chain hull.',
'C16': 'For every primitive: query everything (fills all the caches), apply a change through the public interface, and compare *every* query with the one of a freshly built object of the same final definition; clones are compared before and after the source changes.',
'C17': 'Exact polynomials: Bernstein evaluation in rationals, root isolation by Sturm sequences for the number of intersections, exact area integral, numerical quadrature for lengths.',
'C18': 'The Cox-de Boor recursion in rational numbers.',
'C19': 'The implicit and parametric equations; exact discriminants decide the number of intersections; the SVG F.6 conversion is written independently; transformed conics are compared with the images of their points.',
'C20': 'An interpreter of the path commands, with the geometry of rounded corners solved independently.',
'C21': 'An independent longest-match reader of the SVG 1.1 path, transform and length grammars; damaged strings (every prefix, deletion, insertion, replacement) must be refused exactly when the grammar refuses them.',
'C22': 'A walk of the generated tree which composes transformations and attributes.',
'C23': 'A list of items with their exact extents and distances; every sequence of additions, removals, updates and picks.',
'C24': 'ISO 216 dimensions, exact conversion factors, and an interval cover of the drawing by the tiles.',
'C25': 'The documents (PDF, SVG, DXF, TikZ and a recorded Matplotlib figure) are read by small independent readers and compared, item by item, with the scene.',
'C26': 'Integer/float component tables, the tables of Matplotlib and Qt for the names, and a dictionary model for styles.',
'C27': 'DXF documents are written with ezdxf from known geometry; the imported geometry is sampled and compared with the arc equations of the bulges.',
'C28': 'Definitions of the helpers, and exact (Sturm) root counts.',
'C29': 'An affine model of the viewport; a recording QPainter collects the drawing calls.',
'C30': 'Unit definitions and dictionary models.',
'C31': 'The application is started by `bin/patro` in a child process, on the offscreen platform of Qt: the user script, the event loop and the exit status are observed; the keys, the mouse, the wheel and the tool bar are driven by QtTest and compared with the affine model of the view of C29; the documents of the kernel are replaced.',
}

FALSE_ALARMS = '''## False alarms met and corrected

Each was a fault of the check (or of the property as first written), corrected there:

* C14: query points on the boundary and non dyadic query points; containment is only asked off the boundary of simple polygons.
* C17: the sign of the area follows the orientation of the curve.
* C28, C08: the harness used values of the wrong type.
* C07: a negative increment is not part of the documented use of the counter.
* C01: coincident, parallel and nearly tangent operands are ill-conditioned: the answer is only required to be consistent.
* C05: NaN positions of undefined points compare as different.
* C16: angles are compared modulo 360; absolute path parts after a transformation; a bulge on a degenerate corner is undefined.
* C19: `AngularDomain` that stops before it starts has two readings in the code (counter-clockwise through 360 for the conics,
  signed span for SVG arcs and Bézier conversion): each is required where the code documents it. A domain of 360° rotated twice
  may lose one ulp.
* C21: infinite numbers (`1e999`) and the rounding of canonical output are not part of the grammar.
* C23: step indexes of the harness.
* C29: painting before the viewport has a size is undefined.
* C31: Qt does not report a position when the mouse enters the view by one jump; a name of processor which contains `cpu MHz` does not exist.
'''

LIMITS = '''## Limits

* Everything is exhaustive *within* alphabets (small dyadic coordinates, a handful of names, short histories); values outside of them
  are not covered. The small scope hypothesis is helped by choosing alphabets that contain the degenerate positions (coincident, aligned,
  tangent, nested, prefix names, falsy values).
* `Spl`, `Angle1Spl`, `C1LengthSpl`... Valentina functions return 0 in the library (unimplemented) and are not claimed.
* Not importable or unfinished in this tree, thus not covered: `GeometryEngine/Sketch.py`, `QtApplication/QmlApplication`, curve-curve
  Bézier intersection, `Ellipse2D.intersect_conic`, the Qt painter export to SVG, loaders of the stitch, needle and seam data files.
* DXF: closed, rational and unclamped splines are refused or approximated by the library and not claimed.
* C25: documents hold what a detail scene holds; a dash pattern is not examined in PDF; the rasterised result is not examined anywhere.
* C07 relies on the GIL: one bytecode instruction is atomic.
'''

SOUND = '''## Soundness against behaviour-preserving edits

The checks call public methods and properties and read produced files; private attributes are not read, with these exceptions: C07 controls
lock objects created through `threading`/`_thread` whatever their name. Order is only compared where the documentation promises
one. Floats are compared with tolerances far above rounding and far below the alphabets' spacing; decisions (inside, parallel,
tangent) are only asked where exact arithmetic and the code cannot differ by rounding.
'''

def main():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    out = [INTRO, '## Properties\n']
    rows = []
    for p in props:
        pid = p['id']
        f = glob.glob('{}/mc/checks/{}_*.py'.format(V, pid))[0]
        m = importlib.import_module('mc.checks.' + os.path.basename(f)[:-3])
        try:
            e = json.load(open('{}/evidence/{}.json'.format(V, pid)))
        except FileNotFoundError:
            e = None
        out.append('### {} {}\n\nCode: {}. Check: `mc/checks/{}`.\n\n{}\n'.format(pid, p['title'], ', '.join('`' + x.replace('Patro/', '', 1) + '`' for x in p['anchors']['files']) if 'anchors' in p else '', os.path.basename(f), TEXT[pid]))
        out.append('Enumerated, completely:\n')
        for s in m.spaces('quick'):
            out.append('* *{}*: {}'.format(s.name, s.note))
        a = getattr(m, 'ASSUMPTIONS', None)
        if a:
            out.append('\nAssumed: ' + '; '.join(a) + '.')
        if e and e['tier'] == 'quick' and e['coverage']['exhaustive']:
            c = e['coverage']
            rows.append('| {} | {} | {} | {} | {} |'.format(pid, c['states'], c['transitions'], c['traces_validated_against_impl'], round(e['wall_s'])))
        out.append('')
    out += ['## Cost of the quick tier (8 cores)\n', '| check | states | transitions | traces | s |', '|---|---|---|---|---|'] + rows + ['']
    out += ['## Findings\n', 'Genuine defects repaired with `fix:` commits: {}; one line each in `known_findings.txt`. Recorded and not repaired '
            '(the repair would need several sub-paths per `Path2D`, or arcs in graphic path items: a redesign):\n'.format(sum(l.startswith('fixed:') for l in open(V + '/known_findings.txt')))]
    out += ['* ' + l[7:].strip() for l in open(V + '/known_findings.txt') if l.startswith('known:')]
    out += ['', FALSE_ALARMS, SOUND, LIMITS]
    det = json.load(open(V + '/tools/detection.json')) if os.path.exists(V + '/tools/detection.json') else {}
    out += ['## Planted bugs\n', 'Built by `tools/plant.py` (scratch copy: original lines only, stable tests pass, demonstration fails with and passes '
            'without). "First" tells what the check said when the bug was first planted; the checks that missed were strengthened.\n',
            '| id | property | what it breaks | needs | first | now |', '|---|---|---|---|---|---|']
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        sid = d.split('/')[-2]
        m = json.load(open(d))
        r = det.get(sid, {})
        out.append('| {} | {} | {} | {} | {} | {} |'.format(sid, m['property'], m['what_it_breaks'], m['needs'], r.get('first', '?'), r.get('now', '?')))
    open(V + '/DESIGN.md', 'w').write('\n'.join(out).rstrip() + '\n')

main()
