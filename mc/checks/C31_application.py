"""C31: the application, its user script, its window, and what it says of the platform."""
import builtins, io, itertools, json, os, runpy, select, shutil, signal, sys, tempfile, time, traceback, types
os.environ['QT_QPA_PLATFORM'] = 'offscreen'
os.environ['QT_QUICK_BACKEND'] = 'software'
os.environ['QSG_RENDER_LOOP'] = 'basic'
os.environ.setdefault('QT_LOGGING_RULES', '*=false')
from mc.core import Space, Violation, REPO
from mc.checks.C29_viewer import View, make_scene, BOXES, SEGMENTS, seg_dist
from mc.gen import seqs_upto

try:
    import Patro.QtApplication.rcc.PatroRessource
except ImportError:
    # the icons, generated by a tool of Qt which is not here
    import Patro.QtApplication.rcc as _rcc
    _rcc.PatroRessource = sys.modules['Patro.QtApplication.rcc.PatroRessource'] = types.ModuleType('PatroRessource')
from PyQt5.QtCore import QCoreApplication, QObject, QPoint, QPointF, Qt, QTimer
from PyQt5.QtGui import QGuiApplication, QWheelEvent
from PyQt5.QtTest import QTest
import Patro.Common.Platform as PlatformModule
from Patro.QtApplication import QmlApplication as A
from Patro.GraphicEngine.Painter.QtPainter import QtQuickPaintedSceneItem

PROPERTY = 'C31'
ASSUMPTIONS = ['the window is the one of the offscreen platform of Qt, drawn by its software renderer',
               'the icons, generated by a tool of Qt which is not installed, are absent',
               'scenes have an extent', 'the system is Linux']

####################################################################################################
# a process which runs the application

LIMIT = 40

def process(ctx, body):
    """Runs body(log) in a child process; returns its lines, what it prints, and its exit status"""
    d = tempfile.mkdtemp(prefix='mc-application-')
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        status = 97
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(LIMIT)
            os.close(r)
            out = os.open(os.path.join(d, 'out'), os.O_WRONLY | os.O_CREAT)
            os.dup2(out, 1)
            os.dup2(out, 2)
            sys.stdout = io.TextIOWrapper(io.FileIO(1, 'w', closefd=False), encoding='utf-8', line_buffering=True)
            sys.stderr = io.TextIOWrapper(io.FileIO(2, 'w', closefd=False), encoding='utf-8', line_buffering=True)
            os.environ['XDG_RUNTIME_DIR'] = d
            os.chmod(d, 0o700)
            import logging
            logging.disable(logging.NOTSET)
            def log(*args):
                os.write(w, (json.dumps(args) + '\n').encode())
            work = os.path.join(d, 'work')
            os.mkdir(work)
            os.chdir(work)
            try:
                body(log)
                status = 0
            except SystemExit as e:
                c = e.code
                status = 0 if c is None else c & 255 if isinstance(c, int) else 1
            except Violation as e:
                log('violation', str(e))
            except BaseException:
                log('error', traceback.format_exc())
        finally:
            os._exit(status)
    os.close(w)
    data = b''
    try:
        while True:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
        _, s = os.waitpid(pid, 0)
        pid = None
        with open(os.path.join(d, 'out'), errors='replace') as fh:
            out = fh.read()
    finally:
        os.close(r)
        if pid is not None:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
    lines = [json.loads(l) for l in data.decode().splitlines()]
    for l in lines:
        if l[0] == 'violation':
            raise Violation(l[1])
        if l[0] == 'error':
            raise Violation('unexpected error: ' + l[1][-600:])
        if l[0] == 'state':
            ctx.state(l[1])
    ctx.step(len(lines))
    return [l for l in lines if l[0] != 'state'], out, os.waitstatus_to_exitcode(s)

def viewer(window):
    return [x for x in window.findChildren(QObject) if isinstance(x, QtQuickPaintedSceneItem)]

####################################################################################################
# user scripts

HEAD = "import mcprobe\nmcprobe.run({}, globals())\n"
SET = """
from Patro.GraphicEngine.Painter.QtPainter import QtScene
ui = application.qml_application
ui.sceneChanged.connect(mcprobe.changed)
s = [mcprobe.make(k) for k in range(3)]
for k in {}:
    ui.scene = s[k]
    mcprobe.check(ui.scene is s[k], 'scene not kept')
mcprobe.shown(s[{}])
"""

# kind: (source, runs, signals, status or None when the application keeps running, what is printed)
KINDS = {
    'empty': ('', [], 0, None, ''),
    'plain': (HEAD.format(1), [1], 0, None, ''),
    'functions': (HEAD.format(1) + "x = [4]\ndef f():\n    return application, x[0]\nclass B:\n    def g(self):\n        return f()\n"
                  "mcprobe.check(B().g() == (application, 4), 'globals')\nmcprobe.check([f()[1] for _ in x] == [4], 'globals')\n", [1], 0, None, ''),
    'two runs': (HEAD.format(1) + "application.execute_user_script('other.py')\napplication.execute_user_script(__import__('pathlib').Path('other.py').absolute())\n" +
                 "mcprobe.check('other' not in globals(), 'context shared')\n" + HEAD.format(3), [1, 2, 2, 3], 0, None, ''),
    'unicode': (HEAD.format(1) + "mcprobe.check([ord(c) for c in 'é€'] == [233, 8364], 'text')\n", [1], 0, None, ''),
    'mark': ('\ufeff' + HEAD.format(1), [1], 0, None, ''),
    'latin': ('# -*- coding: latin-1 -*-\n' + HEAD.format(1) + "mcprobe.check([ord(c) for c in 'é'] == [233], 'text')\n", [1], 0, None, ''),
    'windows': ((HEAD.format(1) + "if True:\n    x = '''a\nb'''\nmcprobe.check(x == 'a' + chr(10) + 'b', 'lines')\n").replace('\n', '\r\n'), [1], 0, None, ''),
    'no end of line': (HEAD.format(1) + "x = 1", [1], 0, None, ''),
    'syntax': (HEAD.format(1) + 'x = (\n', [], 0, 1, 'SyntaxError'),
    'indentation': (HEAD.format(1) + 'if x:\ny\n', [], 0, 1, 'IndentationError'),
    'null': (HEAD.format(1) + 'x = 1\0\n', [], 0, 1, 'null bytes'),
    'not text': ('latin-1:' + HEAD.format(1) + "x = 'é'\n", [], 0, 1, 'Error'),
    'raise': (HEAD.format(1) + "def f():\n    raise ValueError('oh ' + 'dear')\nf()\n" + HEAD.format(2), [1], 0, 1, 'ValueError: oh dear'),
    'assert': (HEAD.format(1) + "assert 1 == 2, 'x' + 'y'\n", [1], 0, 1, 'AssertionError: xy'),
    'name': (HEAD.format(1) + "undefined_name\n", [1], 0, 1, "'undefined_name' is not defined"),
    'import': (HEAD.format(1) + "import no_such_module_at_all\n", [1], 0, 1, 'no_such_module_at_all'),
    'exit 0': (HEAD.format(1) + "import sys\nsys.exit(0)\n", [1], 0, 0, ''),
    'exit 3': (HEAD.format(1) + "import sys\nsys.exit(3)\n", [1], 0, 3, ''),
    'second': (HEAD.format(1) + "from Patro.QtApplication.QmlApplication import Application\nmcprobe.check(Application.instance is application, 'instance')\n"
               "try:\n    Application.create()\nexcept NameError:\n    mcprobe.run(2, globals())\n", [1, 2], 0, None, ''),
    'none': (None, [], 0, None, ''),
    'missing': (None, [], 0, 1, ''),
    'folder': (None, [], 0, 1, ''),
}
for _k, (_s, _n) in {'scene': ([0], 1), 'same': ([0, 0], 1), 'two': ([0, 1], 2), 'back': ([0, 1, 0, 0], 3), 'three': ([2, 1, 1, 0], 3)}.items():
    KINDS['set ' + _k] = (HEAD.format(1) + SET.format(_s, _s[-1]), [1], _n, None, '')
KINDS['set raise'] = (HEAD.format(1) + SET.format([1], 1) + "1/0\n", [1], 1, 1, 'ZeroDivisionError')

FORMS = ['two', 'equal', 'args first', 'args last', 'args equal']
PLACES = ['script.py', 'sub/a script.py', 'absolute', 'sous dossier é/€.txt', './sub/../x', 'absolute, relative']
ARGS = 'a "b c" é'

def arguments(form, path):
    if path is None:
        return {'two': [], 'equal': [], 'args first': ['--user-script-args', ARGS]}.get(form, ['--user-script-args=' + ARGS])
    a = {'two': ['--user-script', path], 'equal': ['--user-script=' + path]}.get(form, ['--user-script', path])
    extra = ['--user-script-args', ARGS] if 'equal' not in form[1:] else ['--user-script-args=' + ARGS]
    return {'args first': extra + a, 'args last': a + extra, 'args equal': a + extra}.get(form, a)

def script(case, ctx):
    kind, form, place = case
    source, runs, signals, status, printed = KINDS[kind]
    ctx.state(case)

    def body(log):
        path = os.path.join(os.getcwd(), 'abs', 'script.py') if place.startswith('absolute') else place
        full = os.path.abspath(path)
        os.makedirs('sub', exist_ok=True)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if kind == 'folder':
            os.mkdir(full)
        elif source is not None:
            text, code = source, 'utf-8'
            if kind == 'latin':
                code = 'latin-1'
            elif kind == 'not text':
                text, code = text[8:], 'latin-1'
            with open(full, 'wb') as fh:
                fh.write(text.encode(code))
        if place == 'absolute, relative':
            # the absolute place of a script does not depend on the current directory
            os.chdir('sub')
        with open('other.py', 'w') as fh:
            fh.write(HEAD.format(2) + 'other = 1\n')
        here = os.getcwd()
        sys.argv = ['patro'] + arguments(form, None if kind == 'none' else path)
        m = sys.modules['mcprobe'] = types.ModuleType('mcprobe')
        count = [0]
        def check(cond, text):
            if not cond:
                log('violation', text)
                os._exit(96)
        def run(k, context):
            a = context.get('application')
            check(a is not None and a is A.Application.instance, 'the script {} has no application'.format(k))
            check(isinstance(a, A.Application), 'the script {} has another application'.format(k))
            check({n for n in context if not n.startswith('__')} - {'application', 'mcprobe'} == set() or k != 1, 'context {}'.format(sorted(context)))
            w = QGuiApplication.topLevelWindows()
            check(len(w) == 1 and w[0].isVisible() and len(viewer(w[0])) == 1, 'no window when the script runs')
            log('run', k)
        def changed():
            count[0] += 1
        def shown(scene):
            a = A.Application.instance
            check(a.qml_application.scene is scene, 'scene of the application')
            v = viewer(QGuiApplication.topLevelWindows()[0])[0]
            check(v.scene is scene, 'the window does not show the scene')
            m.scene = scene
        def watch(application):
            turns = [0]
            def hop():
                turns[0] += 1
                if turns[0] < 5:
                    return QTimer.singleShot(0, hop)
                args = application.args
                check((args.user_script is None) == (kind == 'none'), 'user script {!r}'.format(args.user_script))
                if args.user_script is not None:
                    check(hasattr(args.user_script, 'joinpath') and os.path.normpath(os.path.join(here, args.user_script)) == full, 'user script {!r}'.format(args.user_script))
                check(args.user_script_args == (ARGS if form.startswith('args') else ''), 'arguments {!r}'.format(args.user_script_args))
                shown(m.scene)
                p = application.platform
                screens = QGuiApplication.screens()
                check(p.number_of_screens == len(screens) == len(p.screens), 'screens')
                for got, want in zip(p.screens, screens):
                    size = want.size()
                    check((got.name, got.screen_width, got.screen_height) == (want.name(), size.width(), size.height()), 'screen')
                    check(abs(got.dpi - want.physicalDotsPerInch()) < 1e-6 and abs(got.dpi_x - want.physicalDotsPerInchX()) < 1e-6 and abs(got.dpi_y - want.physicalDotsPerInchY()) < 1e-6, 'resolution')
                    check('{}x{}'.format(size.width(), size.height()) in str(p), 'screen in {}'.format(p))
                log('alive', count[0])
                QCoreApplication.exit(7)
            QTimer.singleShot(0, hop)
        m.run, m.changed, m.check, m.shown, m.scene = run, changed, check, shown, None
        m.make = lambda k: make_scene(k)[0]
        execute = A.Application.exec_
        def spy(self, *args):
            watch(self)
            return execute(self, *args)
        A.Application.exec_ = spy
        runpy.run_path(os.path.join(REPO, 'bin', 'patro'), run_name='__main__')
        log('returned')

    lines, out, code = process(ctx, body)
    what = 'script {}'.format(case)
    ctx.eq([l[1] for l in lines if l[0] == 'run'], runs, what + ': runs')
    alive = [l[1:] for l in lines if l[0] == 'alive']
    if status is None:
        ctx.eq(alive, [[signals]], what + ': the application runs and the scene changes')
        ctx.eq(code, 7, what + ': exit status of the event loop')
    else:
        ctx.eq(code, status, what + ': exit status (printed {})'.format(out[-300:]))
        ctx.eq(alive, [], what + ': the application still runs')
        ctx.check(printed in out, '{} does not print {}: {}', what, printed, out[-600:])
    ctx.outcome((code, len(runs), signals))

def script_cases(tier):
    for k in KINDS:
        if tier == 'quick':
            yield [k, 'two', 'script.py']
            for i, p in enumerate(PLACES[1:]):
                if k in ('plain', 'two runs', 'set two', 'raise', 'missing', 'folder', 'syntax'):
                    yield [k, FORMS[i], p]
        else:
            for f in FORMS:
                for p in PLACES:
                    yield [k, f, p]
    if tier == 'quick':
        for k in ('plain', 'none'):
            for f in FORMS[1:]:
                yield [k, f, 'script.py']

def refused(case, ctx):
    ctx.state(case)
    def body(log):
        sys.argv = ['patro'] + case
        runpy.run_path(os.path.join(REPO, 'bin', 'patro'), run_name='__main__')
    lines, out, code = process(ctx, body)
    ctx.eq(code, 0 if '--help' in case else 2, 'exit status of {}'.format(case))
    ctx.check('--user-script' in out and '--user-script-args' in out, 'usage not printed')

REFUSED = [['--help'], ['--user-script'], ['--no-such-option'], ['file'], ['--user-script-args'], ['--user-script', 'a', 'b']]

####################################################################################################
# what the user does in the window

STATE = {}
SIZES = [(1000, 500), (640, 700)]

def center(item):
    return item.mapToScene(QPointF(item.width()/2, item.height()/2)).toPoint()

def start():
    if not STATE:
        import logging
        logging.disable(logging.CRITICAL)
        os.environ.setdefault('XDG_RUNTIME_DIR', tempfile.gettempdir())
        sys.argv = ['patro']
        A.Application.setup_gui_application()
        STATE['application'] = A.Application.create()
        w = STATE['window'] = QGuiApplication.topLevelWindows()[0]
        STATE['item'], = viewer(w)
        # the tool bar, in order
        STATE['buttons'] = sorted((x for x in w.findChildren(QObject) if 'ToolButton' in x.metaObject().className()), key=lambda x: x.mapToScene(QPointF(0, 0)).x())
        for _ in range(20):
            QCoreApplication.processEvents()
    return STATE

def position_label(window, item):
    # the text under the view
    low = item.mapToScene(QPointF(0, item.height())).y()
    return [x for x in window.findChildren(QObject) if x.metaObject().className() == 'QQuickText' and x.mapToScene(QPointF(0, 0)).y() >= low - 1]

POINTS = [(500, 150), (120, 300), (333, 41)]
OPS = ([['key', k] for k in ('Left', 'Right', 'Up', 'Down')] + [['button', k] for k in range(3)] +
       [['wheel', p, s] for p in (0, 1) for s in (1, -1)] + [['move', p] for p in (0, 2)] + [['left', 0], ['left', 1], ['right', 1]] +
       [['drag', 'Middle', 0, 1], ['drag', 'Middle', 1, 2, 0], ['drag', 'Left', 0, 1], ['drag', 'Right', 2, 0]] +
       [['scene', 0], ['scene', 1], ['resize', 0], ['resize', 1]])

def play(case, ctx, log=None):
    first, ops = case
    st = start()
    window, item, application = st['window'], st['item'], st['application']
    buttons = st['buttons']
    ctx.check(len(buttons) == 3, 'tool bar')
    labels = position_label(window, item)
    ctx.check(len(labels) == 1, 'position label: {}', len(labels))
    label = labels[0]
    view = View()
    scenes = [make_scene(k) for k in range(2)]
    selected = [set(), set()]
    current = None
    text = None
    def resize(k):
        window.resize(*SIZES[k])
        for _ in range(3):
            QCoreApplication.processEvents()
        view.size = (item.width(), item.height())
        ctx.eq(window.width(), SIZES[k][0], 'window')
        ctx.check(item.width() == SIZES[k][0] and SIZES[k][1]*.6 < item.height() < SIZES[k][1], 'the view fills the window: {}', view.size)
    def show(k):
        nonlocal current
        application.qml_application.scene = scenes[k][0]
        if current != k:
            current = k
            view.box = BOXES[k]
            view.fit()
        ctx.check(item.scene is scenes[k][0], 'scene shown')
    def at(p):
        return item.mapToScene(QPointF(*POINTS[p])).toPoint()
    def move(p):
        # a mouse passes by the pixels near its target
        QTest.mouseMove(window, at(p) + QPoint(1, 1))
        QTest.mouseMove(window, at(p))
    def drag_pan(p, q):
        view.center = (view.center[0] + 1.5*(POINTS[q][0] - POINTS[p][0])/view.scale, view.center[1] + 1.5*(POINTS[p][1] - POINTS[q][1])/view.scale)
    def pick(p):
        nonlocal done
        pos = view.to_scene(POINTS[p])
        dist = sorted((seg_dist(pos, a, b), k) for k, (a, b) in enumerate(SEGMENTS[current]))
        radius = 10/view.scale
        if any(abs(d - radius) < 1e-6*(1 + radius) for d, k in dist) or (len(dist) > 1 and dist[0][0] <= radius*1.5 and dist[1][0] - dist[0][0] < 1e-6):
            return False # a tie
        selected[current] = {dist[0][1]} if dist[0][0] <= radius else set()
        return True
    def here(p):
        if current is None:
            return ''
        return view.to_scene(POINTS[p])
    focus = True
    resize(0)
    if first is not None:
        # a new scene in a window which has been used
        show(first)
        QTest.mouseClick(window, Qt.RightButton, Qt.NoModifier, at(0))
        move(1)
    done = []
    for op in ops:
        done.append(op)
        name = op[0]
        if name == 'key':
            QTest.keyClick(window, getattr(Qt, 'Key_' + op[1]))
            if current is not None and focus:
                dx, dy = {'Left': (-10, 0), 'Right': (10, 0), 'Up': (0, 10), 'Down': (0, -10)}[op[1]]
                view.center = (view.center[0] + dx/view.scale, view.center[1] + dy/view.scale)
        elif name == 'button':
            QTest.mouseClick(window, Qt.LeftButton, Qt.NoModifier, center(buttons[op[1]]))
            focus = item.hasActiveFocus()
            if current is not None:
                if op[1] == 0:
                    view.fit()
                else:
                    view.scale *= {1: 1.1, 2: .9}[op[1]]
        elif name == 'wheel':
            p = QPointF(at(op[1]))
            e = QWheelEvent(p, p, QPoint(), QPoint(0, 120*op[2]), 120*op[2], Qt.Vertical, Qt.NoButton, Qt.NoModifier)
            QCoreApplication.sendEvent(window, e)
            if current is not None:
                view.center = view.to_scene(POINTS[op[1]])
                view.scale *= 2 if op[2] > 0 else .5
        elif name == 'move':
            move(op[1])
            text = here(op[1])
        elif name in ('left', 'right'):
            if name == 'left' and current is not None and not pick(op[1]):
                done.pop()
                continue
            QTest.mouseClick(window, Qt.LeftButton if name == 'left' else Qt.RightButton, Qt.NoModifier, at(op[1]))
            focus = True
            text = None
        elif name == 'drag':
            if op[1] == 'Left' and current is not None and not pick(op[2]):
                done.pop()
                continue
            button = getattr(Qt, op[1] + 'Button')
            path = op[2:]
            move(path[0])
            before = label.property('text')
            QTest.mousePress(window, button, Qt.NoModifier, at(path[0]))
            for p, q in zip(path, path[1:]):
                QTest.mouseMove(window, at(q))
                if op[1] == 'Middle' and current is not None:
                    drag_pan(p, q)
            if op[1] == 'Middle':
                ctx.eq(label.property('text'), before, 'position while the view is dragged')
            QTest.mouseRelease(window, button, Qt.NoModifier, at(path[-1]))
            focus = True
            text = None
            # the drag is over
            move(path[0])
            text = here(path[0])
        elif name == 'scene':
            show(op[1])
        elif name == 'resize':
            resize(op[1])
            text = None
            if current is not None and view.center is None:
                view.fit()
        ctx.step()
        ctx.eq(window.isVisible(), True, 'window')
        if text is not None:
            got = label.property('text')
            if text == '':
                ctx.eq(got, '', 'position without scene')
            else:
                g = [float(x) for x in got.split(',')] if got.count(',') == 1 else []
                ctx.check(len(g) == 2 and all(abs(x - y) <= .000501 + 1e-9*abs(y) for x, y in zip(g, text)), 'position shown {!r}, expected {} after {}', got, text, done)
            text = None
        if current is None:
            continue
        ctx.close(item.zoom, view.scale, 'zoom after {}'.format(done))
        for p in ((0, 0), (3.5, -7)):
            got = item.scene_to_viewport(A_vector(p))
            want = view.to_viewport(p)
            ctx.check(abs(got.x() - want[0]) <= 1e-6*(1 + abs(want[0])) and abs(got.y() - want[1]) <= 1e-6*(1 + abs(want[1])), 'pixel of {}: {}, expected {} after {}', p, (got.x(), got.y()), want, done)
        for k in range(2):
            ctx.eq([i.selected for i in scenes[k][1]], [i in selected[k] for i in range(len(scenes[k][1]))], 'selected items of the scene {} after {}'.format(k, done))
        ctx.state((first, current, tuple(round(c, 5) for c in view.center), round(view.scale, 6), view.size, sorted(selected[current])))
    ctx.outcome(repr((ops and ops[-1], current)))

def A_vector(p):
    from Patro.GeometryEngine.Vector import Vector2D
    return Vector2D(*p)

def fresh(case, ctx):
    """The same, in a new application, which has no scene"""
    first, ops = case
    def body(log):
        from mc.core import Ctx
        play([None, ops], Ctx())
        if first == 'close':
            # the menu closes the window, which ends the application
            QTimer.singleShot(0, STATE['window'].close)
            STATE['application'].exec_()
    lines, out, code = process(ctx, body)
    ctx.eq(code, 0, 'end of the application after {}: {}'.format(ops, out[-500:]))
    ctx.state(case)

def fresh_cases(depth):
    for s in seqs_upto(OPS, 0, depth):
        yield [None, list(s)]

####################################################################################################
# platform

NAMES = ['Intel(R) Core(TM) i7-4770 CPU @ 3.40GHz', 'Common KVM processor', 'AMD EPYC 7763 64-Core Processor', None]
MHZ = ['3392.120', '800.000', '2999', '1199.999', None]
MEMORY = [1, 1023, 1024, 16314772, 527926156]

def document(cores, name, mhz):
    out = ''
    for k in range(cores):
        out += 'processor\t: {}\nvendor_id\t: V\ncpu family\t: 6\n'.format(k)
        if name is not None:
            out += 'model name\t: {}\n'.format(name)
        out += 'stepping\t: 3\n'
        if mhz is not None:
            out += 'cpu MHz\t\t: {}\n'.format(mhz)
        out += 'cache size\t: 8192 KB\ncore id\t\t: {}\nflags\t\t: fpu vme\nbogomips\t: 6784.24\n\n'.format(k)
    return out

def platform_case(case, ctx):
    cores, name, mhz, memory = case
    ctx.state(case)
    d = tempfile.mkdtemp(prefix='mc-platform-')
    files = {'/proc/cpuinfo': document(cores, name, mhz),
             '/proc/meminfo': 'MemTotal:       {} kB\nMemFree:        7 kB\nMemAvailable:   9 kB\nSwapTotal:      5 kB\n'.format(str(memory).rjust(8))}
    for k, v in files.items():
        with open(os.path.join(d, os.path.basename(k)), 'w') as fh:
            fh.write(v)
    real = builtins.open
    def stand_in(path, *args, **kwargs):
        try:
            p = os.fspath(path)
        except TypeError:
            p = path
        return real(os.path.join(d, os.path.basename(p)) if p in files else path, *args, **kwargs)
    # the documents of the kernel are replaced
    builtins.open = io.open = stand_in
    try:
        p = PlatformModule.Platform()
        text = str(p)
    finally:
        builtins.open = io.open = real
        shutil.rmtree(d)
    ctx.eq(p.os, PlatformModule.PlatformType.Linux, 'system')
    ctx.eq(p.number_of_cores, cores, 'number of cores')
    ctx.eq(p.cpu, name if cores else None, 'processor')
    if mhz is None or not cores:
        ctx.eq((p.cpu_khz, p.cpu_mhz), (None, None), 'frequency')
    else:
        ctx.check(abs(p.cpu_khz - 1000*float(mhz)) <= 1 and abs(p.cpu_mhz - float(mhz)) <= 1, 'frequency {} kHz, {} MHz', p.cpu_khz, p.cpu_mhz)
    ctx.eq(p.memory_size_kb, memory, 'memory')
    ctx.check(abs(p.memory_size_mb - memory/1024) <= 1, 'memory {} MB', p.memory_size_mb)
    for want in (str(cores), str(p.cpu), str(p.memory_size_mb) + ' MB', p.node, p.python_version):
        ctx.check(want in text, 'no {} in {}', want, text)
    ctx.outcome((cores, name, mhz, memory))

def platform_cases():
    yield from ([c, n, m, k] for c, n, m, k in itertools.product((0, 1, 2, 3, 8, 64), NAMES, MHZ, MEMORY))

####################################################################################################
# logging

LEVELS = {None: 10, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}

def log_case(case, ctx):
    name, level, place = case
    ctx.state(case)
    def body(log):
        import logging
        from Patro.Common.Logging import Logging
        os.environ.pop('PatroLogLevel', None)
        if level is not None:
            os.environ['PatroLogLevel'] = level
        os.mkdir('d')
        # a file of the same name in the current directory is not the configuration
        for p in ('logging.yml', 'd/logging.yml'):
            with open(p, 'w') as fh:
                fh.write('version: 1\n')
        os.chdir(place)
        logger = Logging.setup_logging(application_name=name) if name else Logging.setup_logging()
        n = name or 'Patro'
        log('logger', logger.name, logger is logging.getLogger(n), logger.getEffectiveLevel())
        for l in LEVELS:
            if l:
                getattr(logger, l.lower())('message %s %d', l, 42)
                getattr(logger.getChild('child'), l.lower())('child %s %d', l, 42)
    lines, out, code = process(ctx, body)
    ctx.eq(lines, [['logger', name or 'Patro', True, LEVELS[level]]], 'logger')
    # the console shows the messages from INFO
    for l, v in LEVELS.items():
        if l:
            for w in ('message', 'child'):
                ctx.eq(out.count('{} {} 42'.format(w, l)), int(v >= max(20, LEVELS[level])), '{} {} of the logger of level {}'.format(w, l, level))
    ctx.check(all((name or 'Patro') in line for line in out.splitlines()), 'name of the logger in {}', out)
    ctx.outcome((level, out.count('42')))

MESSAGES = ['plain', 'a %s {} %d {0}', 'été — €', 'first\nsecond']
FILES = [None, '/p/of scene.qml', 'qrc:/qml/pages/main.qml', 'local.js']
KINDS_OF_MESSAGE = [('debug', 10), ('info', 20), ('warning', 30), ('critical', None)]

def message_case(case, ctx):
    """What Qt and the QML code say, once the application is created"""
    level, file, function = case
    ctx.state(case)
    said = [(k, v, i) for i in range(len(MESSAGES)) for k, v in KINDS_OF_MESSAGE] + [(k, v, 0) for k, v in reversed(KINDS_OF_MESSAGE)]
    def body(log):
        import logging
        from PyQt5.QtCore import QMessageLogger
        from Patro.Common.Logging import Logging
        # every message of Qt
        os.environ.pop('QT_LOGGING_RULES', None)
        os.environ.pop('PatroLogLevel', None)
        if level is not None:
            os.environ['PatroLogLevel'] = level
        start()
        logging.disable(logging.NOTSET)
        Logging.setup_logging()
        # as when the log is set up before the modules are imported
        for x in list(logging.Logger.manager.loggerDict.values()):
            if isinstance(x, logging.Logger):
                x.disabled = False
        where = [None, 0, None, b'qml'] if file is None else [file.encode(), 12, function.encode(), b'qml']
        for j, (kind, _, i) in enumerate(said):
            getattr(QMessageLogger(*where), kind)('<<{} {} {}>>'.format(kind, j, MESSAGES[i]).encode())
            log(kind)
    lines, out, code = process(ctx, body)
    ctx.eq([l[0] for l in lines], [k for k, _, _ in said], 'messages')
    ctx.eq(code, 0, 'exit status')
    position = 0
    for j, (kind, v, i) in enumerate(said):
        text = '<<{} {} {}>>'.format(kind, j, MESSAGES[i])
        # the console shows the messages from INFO, and the critical ones in any case
        shown = v is None or v >= max(20, LEVELS[level])
        ctx.eq(out.count(text), int(shown), 'message {!r} at level {}'.format(text, level))
        if shown:
            at = out.index(text)
            ctx.check(at >= position, 'message {!r} in order', text)
            before = out[:at].rsplit('\n', 1)[-1]
            position = at + len(text)
            if file is not None:
                ctx.check(os.path.basename(file) in before and function in before, '{!r} does not tell {} and {}: {!r}', text, file, function, before)
            name = {'info': 'INFO', 'warning': 'WARNING'}.get(kind)
            if name:
                ctx.check(name in before and not any(x in before for x in ('DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL') if x != name), '{!r} is told as {!r}', text, before)
            else:
                ctx.check('Critical' in out[:at].rsplit('<<', 1)[-1], '{!r} is not told as critical', text)
    ctx.outcome((level, file is None))

def message_cases(tier):
    for level in LEVELS:
        for file in FILES:
            for function in ('expression for onClicked', '_f'):
                if file is not None or function == '_f':
                    yield [level, file, function]

def log_cases():
    yield from ([n, l, p] for n in (None, 'patro', 'Patro.A') for l in LEVELS for p in ('.', 'd', '/'))

####################################################################################################

def spaces(tier):
    n = 3 if tier == 'quick' else 4
    play_cases = lambda: ([f, list(s)] for f in (0, 1) for s in seqs_upto(OPS, 1, n))
    return [Space('scripts', lambda: script_cases(tier), script, 'every kind of script x ways to name it', timeout=90),
            Space('options', REFUSED, refused, 'options which do not start the application', timeout=90),
            Space('window', play_cases, play, 'every history of {} actions in the window'.format(n), timeout=90),
            Space('no scene', lambda: fresh_cases(n - 2), fresh, 'every history of {} actions in a new application'.format(n - 2), timeout=90),
            Space('close', [['close', []], ['close', [['scene', 0]]], ['close', [['scene', 1], ['wheel', 0, 1], ['scene', 0]]]], fresh, 'end of the application', timeout=90),
            Space('platform', platform_cases, platform_case, 'every document'),
            Space('messages', lambda: message_cases(tier), message_case, 'every kind of message, text and place of Qt x level of the log', timeout=90),
            Space('logging', log_cases, log_case, 'every level', timeout=90)]
