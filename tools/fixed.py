#!/usr/bin/env python3
"""Append to known_findings.txt one 'fixed:' line per fix commit of /repo not yet recorded (development tool, never run by a check)."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PATH = os.path.join(V, 'known_findings.txt')
BY_FILE = [('Platform.py', 'C31'), ('QmlApplication', 'C31'), ('Common/AtomicCounter', 'C07'), ('Common/Graph', 'C08'), ('Common/Xml', 'C09'), ('Common/', 'C28'), ('Math/', 'C28'), ('Vector.py', 'C10'), ('Transformation.py', 'C11'), ('Line.py', 'C12'),
           ('Triangle.py', 'C13'), ('Rectangle.py', 'C13'), ('Polyline.py', 'C13'), ('Primitive.py', 'C13'), ('Polygon.py', 'C14'), ('Bezier.py', 'C17'), ('Spline.py', 'C18'), ('Mixin.py', 'C19'),
           ('Conic.py', 'C19'), ('Path.py', 'C20'), ('ArrowHead', 'C20'), ('Calculator', 'C02'), ('Pattern/', 'C03'), ('Valentina/Measurement', 'C06'), ('Valentina/', 'C05'), ('Measurement/', 'C04'),
           ('SvgFormat', 'C21'), ('SvgFile', 'C22'), ('QtPainter', 'C29'), ('GraphicStyle', 'C26'), ('TypographyUnit', 'C24'), ('Painter/Painter.py', 'C24'), ('Paper', 'C24'), ('GraphicScene/', 'C23'), ('Painter/', 'C25'), ('TeX/', 'C25'),
           ('Dxf/', 'C27'), ('Textile', 'C30')]
BY_WORD = [('', 'a line shares', 'C16'), ('', 'homogeneous vector', 'C11'), ('GraphicItemMixin.py', 'graphic scene and Valentina measurement modules', 'C23'), ('Primitive.py', 'reversing a primitive', 'C16'), ('', 'previous points after a transformation', 'C16'),
           ('', 'convex hull', 'C15'), ('', 'clone of an arc shares', 'C16'), ('', 'bulges of a path are stale', 'C16'), ('', 'root finders', 'C28'), ('', 'uniform splines', 'C18'), ('', 'stale cubic positions', 'C29'),
           ('', 'SVG lengths', 'C21'), ('', 'SVG rectangle default', 'C22'), ('', 'SVG polygon tag', 'C22'), ('', 'cap, join and miter', 'C22'), ('', 'a polygon in a graphic scene', 'C23'), ('', 'attribute the operation ids', 'C03')]
text = open(PATH).read()
out = []
for c in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h'], text=True).split()[1:]:
    msg = subprocess.check_output(['git', '-C', '/repo', 'show', '-s', '--format=%s', c], text=True).strip()
    f = ' '.join(subprocess.check_output(['git', '-C', '/repo', 'show', '--name-only', '--format=', c], text=True).split())
    if not msg.startswith('fix:') or ' ' + c + ' ' in text:
        continue
    pid = next((p for g, w, p in BY_WORD if w in msg), None) or next((p for k, p in BY_FILE if k in f.replace('Patro/Common/Math', 'Math/')), None)
    assert pid, (c, msg, f)
    out.append('fixed: property={} {} {}\n'.format(pid, c, msg[5:]))
with open(PATH, 'a') as fh:
    fh.writelines(out)
print(len(out), 'lines added')
