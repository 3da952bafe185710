"""C24: paper sizes, typography units and tiles."""
import itertools, logging, os, re, tempfile
from fractions import Fraction as F
from mc.core import Space
from mc.gen import seqs_upto
from IntervalArithmetic import Interval2D
from Patro.GeometryEngine.Vector import Vector2D
from Patro.GraphicEngine.GraphicScene.Scene import GraphicScene
from Patro.GraphicEngine.GraphicScene.GraphicStyle import GraphicPathStyle
from Patro.GraphicEngine.GraphicScene import TypographyUnit as TU
from Patro.GraphicEngine.Painter.Painter import Tiler
from Patro.GraphicEngine.Painter.Paper import PaperSize
from Patro.GraphicEngine.Painter.TexPainter import TexPainter

PROPERTY = 'C24'
ASSUMPTIONS = ['a drawing unit is one centimetre on the sheets', 'ISO sizes within the millimetre to which the norm rounds them',
               'the printable area of a sheet is larger than 0 in both directions']

logging.disable(logging.CRITICAL)

####################################################################################################
# papers

ISO = {
    'A': [(841, 1189), (594, 841), (420, 594), (297, 420), (210, 297), (148, 210), (105, 148), (74, 105), (52, 74), (37, 52), (26, 37)],
    'B': [(1000, 1414), (707, 1000), (500, 707), (353, 500), (250, 353), (176, 250), (125, 176), (88, 125), (62, 88), (44, 62), (31, 44)],
    'C': [(917, 1297), (648, 917), (458, 648), (324, 458), (229, 324), (162, 229), (114, 162), (81, 114), (57, 81), (40, 57), (28, 40)],
}

def paper_cases():
    for letter in 'ABC':
        for level in range(11):
            for orientation in ('portrait', 'landscape'):
                for margin in (0, 5, 10, 12.5):
                    for lower in (0, 1):
                        yield [letter, level, orientation, margin, lower]

def run_paper(case, ctx):
    letter, level, orientation, margin, lower = case
    name = '{}{}'.format(letter, level)
    p = PaperSize(name.lower() if lower else name, orientation, margin)
    w, h = ISO[letter][level]
    if orientation == 'landscape':
        w, h = h, w
    ctx.check(abs(p.width - w) < 1.01 and abs(p.height - h) < 1.01, 'size of {} {}: {} x {}, expected {} x {}', name, orientation, p.width, p.height, w, h)
    ctx.close(max(p.width, p.height)/min(p.width, p.height), 2**.5, 'aspect ratio')
    ctx.close(p.width_in*25.4, p.width, 'width in inch')
    ctx.close(p.height_in*25.4, p.height, 'height in inch')
    ctx.eq((p.name, p.orientation, float(p.margin)), (name, orientation, float(margin)), 'paper')
    other = PaperSize(name, 'portrait' if orientation == 'landscape' else 'landscape', margin)
    ctx.close(other.width, p.height, 'turned paper')
    ctx.close(other.height, p.width, 'turned paper')
    if level < 10:
        half = PaperSize('{}{}'.format(letter, level + 1), orientation, margin)
        ctx.close(half.width*half.height*2, p.width*p.height, 'the next size is half a sheet')
        ctx.close(max(half.width, half.height), min(p.width, p.height), 'the next size is half a sheet')
    ctx.state((p.name, orientation, round(p.width, 6), margin))

def bad_paper_cases():
    for name in ['D4', 'A11', 'B12', 'A-1', 'C-3', 'Z0', 'A', '4', 'AA', 'A4x']:
        yield [name, 'portrait']
    for orientation in ['', 'Portrait', 'seascape', 'LANDSCAPE', None]:
        yield ['A4', orientation]

def run_bad_paper(case, ctx):
    ctx.raises(ValueError, lambda: PaperSize(case[0], case[1], 10), 'paper {}'.format(case))
    ctx.state(case)

####################################################################################################
# units: every chain of conversions

MM = {'mm': F(1), 'inch': F(254, 10), 'point': F(254, 720)}
CLS = {'mm': TU.MmUnit, 'inch': TU.InchUnit, 'point': TU.PointUnit}

def unit_cases(depth):
    def cases():
        for start in MM:
            for value in (0, 1, 72, 25.4, -3, 0.125, 1000, 1e-6, 1e9):
                for chain in seqs_upto(list(MM), 0, depth):
                    yield [start, value, list(chain)]
    return cases

def run_unit(case, ctx):
    start, value, chain = case
    u = CLS[start](value)
    mm = F(value)*MM[start]
    unit = start
    for to in [None] + chain:
        if to is not None:
            u = getattr(u, 'to_' + to)()
            unit = to
            ctx.step()
        ctx.check(isinstance(u, CLS[unit]), 'type {} after {}', type(u).__name__, chain)
        want = float(mm/MM[unit])
        got = float(u)
        ctx.check(isinstance(got, float) and abs(got - want) <= 1e-12*abs(want)*8, 'value {} in {} after {}: expected {}', got, unit, chain, want)
    ctx.state((start, value, unit))

####################################################################################################
# tiles

PAPERS = [('A4', 'portrait', 10), ('A4', 'landscape', 10), ('A4', 'portrait', 0), ('A4', 'landscape', 25), ('A0', 'portrait', 10),
          ('A7', 'landscape', 5), ('B5', 'portrait', 12.5), ('C6', 'portrait', 3), ('A5', 'portrait', 40)]
PAPERS_T = [(l + str(n), o, m) for l in 'ABC' for n in (0, 2, 4, 6, 8) for o in ('portrait', 'landscape') for m in (0, 5, 10, 20)
            if ISO[l][n][0] > 2*m + 25]
ORIGINS = (-37.5, 0, 12)
LENGTHS = (0, 3, 17.25, 40, 61.3, 137)
LENGTHS_T = (0, 3, 17.25, 18.6, 40, 61.3, 95, 137)
MARGINS = (None, 0, 1, 4.5)

def tile_cases(papers, lengths):
    def cases():
        for paper in papers:
            for x, y in itertools.product(ORIGINS, ORIGINS[::-1]):
                for w, h in itertools.product(lengths, lengths):
                    for margin in MARGINS:
                        yield [list(paper), x, y, w, h, margin]
    return cases

EPS = 1e-6

def check_tiles(ctx, tiles, box, margin, paper):
    """*box* is (xmin, xmax, ymin, ymax) of the drawing"""
    x0, x1, y0, y1 = box[0] - margin, box[1] + margin, box[2] - margin, box[3] + margin
    full_w = (paper.width - 2*paper.margin)/10
    full_h = (paper.height - 2*paper.margin)/10
    if not tiles:
        # an empty area
        ctx.check(x1 - x0 <= EPS or y1 - y0 <= EPS, 'no sheet for the box {}', box)
        return
    index = {}
    for (i, r, c) in tiles:
        ctx.check((r, c) not in index, 'sheet {} twice', (r, c))
        index[(r, c)] = i
    rows = 1 + max(r for r, c in index)
    columns = 1 + max(c for r, c in index)
    ctx.eq(sorted(index), [(r, c) for r in range(rows) for c in range(columns)], 'sheets of the grid')
    tile = index[(0, 0)]
    w, h = tile.x.sup - tile.x.inf, tile.y.sup - tile.y.inf
    # sheets have the same drawn area, inside the margins and not much smaller
    ctx.check(full_w - 1.0 <= w <= full_w + EPS, 'width {} of a sheet, {} between margins', w, full_w)
    ctx.check(full_h - 1.0 <= h <= full_h + EPS, 'height {} of a sheet, {} between margins', h, full_h)
    for (r, c), i in index.items():
        ctx.close(i.x.sup - i.x.inf, w, 'width of sheet {}'.format((r, c)))
        ctx.close(i.y.sup - i.y.inf, h, 'height of sheet {}'.format((r, c)))
        # edge to edge
        ctx.close(i.x.inf, tile.x.inf + c*w, 'position in x of sheet {}'.format((r, c)))
        ctx.close(i.y.inf, tile.y.inf + r*h, 'position in y of sheet {}'.format((r, c)))
    # cover
    ctx.check(tile.x.inf <= x0 + EPS and tile.y.inf <= y0 + EPS, 'the sheets start at {} after {}', (tile.x.inf, tile.y.inf), (x0, y0))
    ctx.check(tile.x.inf + columns*w >= x1 - EPS, 'the sheets stop at x = {} before {}', tile.x.inf + columns*w, x1)
    ctx.check(tile.y.inf + rows*h >= y1 - EPS, 'the sheets stop at y = {} before {}', tile.y.inf + rows*h, y1)
    # least number
    ctx.check(columns == 1 or (columns - 1)*w < x1 - x0 + EPS, '{} columns for a width of {}', columns, x1 - x0)
    ctx.check(rows == 1 or (rows - 1)*h < y1 - y0 + EPS, '{} rows for a height of {}', rows, y1 - y0)
    ctx.state((rows, columns, round(w, 6), round(h, 6)))

def box_tuple(b):
    return (b.x.inf, b.x.sup, b.y.inf, b.y.sup)

def run_tile(case, ctx):
    paper_args, x, y, w, h, margin = case
    paper = PaperSize(*paper_args)
    box = Interval2D((x, x + w), (y, y + h))
    before = box_tuple(box)
    tiler = Tiler(box, paper) if margin is None else Tiler(box, paper, margin)
    m = 1 if margin is None else margin
    first = [(i, r, c) for i, r, c in tiler]
    ctx.step(len(first))
    check_tiles(ctx, first, before, m, paper)
    # a second run, a second tiler
    again = [(box_tuple(i), r, c) for i, r, c in tiler]
    ctx.eq(again, [(box_tuple(i), r, c) for i, r, c in first], 'second iteration')
    ctx.eq(box_tuple(box), before, 'box of the drawing')
    other = Tiler(box, paper, m)
    ctx.eq([(box_tuple(i), r, c) for i, r, c in other], again, 'second tiler')

def edge_cases(papers):
    def cases():
        for paper in papers:
            for k, l in itertools.product((1, 2, 3), repeat=2):
                for dx, dy in itertools.product(DELTAS, repeat=2):
                    for margin in (0, 1):
                        yield [list(paper), k, l, dx, dy, margin]
    return cases

DELTAS = (-.1, -.004, -1e-5, 0, 1e-5, .0003, .004, .04, .4)

def run_edge(case, ctx):
    """drawings close to a whole number of sheets"""
    paper_args, k, l, dx, dy, margin = case
    paper = PaperSize(*paper_args)
    i = next(iter(Tiler(Interval2D((0, 1), (0, 1)), paper, margin)))[0]
    w, h = i.x.sup - i.x.inf, i.y.sup - i.y.inf
    W, H = k*w + dx - 2*margin, l*h + dy - 2*margin
    if W <= 0 or H <= 0:
        return
    box = Interval2D((-3, W - 3), (5, H + 5))
    tiles = list(Tiler(box, paper, margin))
    check_tiles(ctx, tiles, box_tuple(box), margin, paper)
    ctx.step(len(tiles))

####################################################################################################
# tiled figure: one figure for each sheet, clipped to the sheet, with the whole drawing

NUM = r'(-?[0-9.]+)'
CLIP = re.compile(r'\\draw\[clip\] \({0},{0}\) -- \({0},{0}\) -- \({0},{0}\) -- \({0},{0}\) -- cycle;'.format(NUM))
LABEL = re.compile(r'\\draw\[\] \({0},{0}\) node\[[^]]*\] \{{(\d+), (\d+)\}};'.format(NUM))
LINE = re.compile(r'\\draw\[[^]]*\] \({0},{0}\) -- \({0},{0}\);'.format(NUM))

def figure_cases(tier):
    pts = [(0, 0), (25, 3), (-7.5, 41), (60, 60)]
    for paper in PAPERS[:3] + [('A6', 'landscape', 5), ('A3', 'portrait', 10)]:
        for segs in seqs_upto(list(itertools.combinations(pts, 2)), 1, 2 if tier == "quick" else 3):
            for twice in (0, 1):
                yield [list(paper), [list(map(list, s)) for s in segs], twice]

def run_figure(case, ctx):
    paper_args, segs, twice = case
    paper = PaperSize(*paper_args)
    scene = GraphicScene()
    for a, b in segs:
        scene.segment(Vector2D(*a), Vector2D(*b), GraphicPathStyle(), None)
    xs = [p[0] for s in segs for p in s]
    ys = [p[1] for s in segs for p in s]
    box = (min(xs), max(xs), min(ys), max(ys))
    scene.bounding_box = Interval2D(box[:2], box[2:])
    for k in range(1 + twice):
        ctx.eq(box_tuple(scene.bounding_box), box, 'box of the scene')
        painter = TexPainter('/nonexistent/tiles.tex', scene, paper)
        painter.add_tiled_detail_figure()
        source = str(painter._document)
        ctx.step()
        ctx.check('paper={}paper'.format(paper.name.lower()) in source and 'margin={}mm'.format(paper.margin) in source,
                  'paper of the document')
        figures = re.findall(r'\\begin\{tikzpicture\}(.*?)\\end\{tikzpicture\}', source, re.S)
        tiles = []
        for fig in figures:
            ctx.check(fig.startswith('[x=10mm,y=10mm]'), 'scale of the figure {}', fig[:30])
            clip = CLIP.findall(fig)
            label = LABEL.findall(fig)
            ctx.check(len(clip) == 1 and len(label) == 1, 'clip and label of a sheet: {}', fig)
            v = [float(_) for _ in clip[0]]
            x0, y0, x1, y1 = v[0], v[1], v[4], v[5]
            ctx.eq(v, [x0, y0, x1, y0, x1, y1, x0, y1], 'clip rectangle')
            tiles.append(((x0, x1, y0, y1), int(label[0][2]) - 1, int(label[0][3]) - 1))
            ctx.check(x0 <= float(label[0][0]) <= x1 and y0 <= float(label[0][1]) <= y1, 'label inside its sheet')
            got = sorted(tuple(float(_) for _ in l) for l in LINE.findall(fig))
            ctx.eq(got, sorted(tuple(map(float, a + b)) for a, b in segs), 'lines of the sheet')
            ctx.check(fig.index('clip') < fig.index('line width'), 'the lines are drawn before the clip')
        want = [(box_tuple(i), r, c) for i, r, c in Tiler(scene.bounding_box, paper)]
        ctx.eq(len(tiles), len(want), 'number of sheets')
        for (g, gr, gc), (t, r, c) in zip(sorted(tiles, key=lambda _: _[1:]), sorted(want, key=lambda _: _[1:])):
            ctx.eq((gr, gc), (r, c), 'sheet numbers')
            ctx.check(all(abs(a - b) <= .0051 for a, b in zip(g, t)), 'sheet {}: clipped to {}, expected {}', (r, c), g, t)
        ctx.eq(box_tuple(scene.bounding_box), box, 'box of the scene')
    ctx.state((len(tiles), box, paper_args))

####################################################################################################

def spaces(tier):
    q = tier == 'quick'
    return [
        Space('paper', paper_cases, run_paper, 'ISO A, B, C 0-10 x orientation x margin x case of the name'),
        Space('bad-paper', bad_paper_cases, run_bad_paper, 'papers which do not exist'),
        Space('units', unit_cases(4 if q else 7), run_unit, 'every chain of unit conversions'),
        Space('tiles', tile_cases(PAPERS if q else PAPERS_T, LENGTHS if q else LENGTHS_T), run_tile,
              'papers x origins x sizes x margins of the drawing'),
        Space('edges', edge_cases(PAPERS if q else PAPERS_T), run_edge, 'drawings of nearly a whole number of sheets'),
        Space('figures', lambda: figure_cases(tier), run_figure, 'tiled TikZ documents of up to {} segments'.format(2 if q else 3)),
    ]
