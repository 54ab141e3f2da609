"""C17: drawings, as shapes or as pictures; C05/C08: shapes as drawn"""
from pyvc.spec import *
from .layout import turns, near, shown
from .restore import upright

PA, EX = 'shape.Path:', 'image.ImagesExtractor:ImagesExtractor'


# ------------------------------------------------ lines and rectangles of a path
COLOUR = {'shape.Path:rgb_value': lambda ctx: (lambda v: ctx.code if v is ctx.rgb else -1)}


@contract(['C17', 'C05', 'C08'], PA + 'L.to_strokes', n=0, stubs=COLOUR)
def line(c):
    """a line is one stroke from start to end"""
    p, q, w = (c.real('x0'), c.real('y0')), (c.real('x1'), c.real('y1')), c.real('width', 0, 100)
    c.rgb, c.code = (.1, .2, .3), c.int('colour', 0, 0xffffff)
    e = c.call(c.mod('shape.Path').L, ('l', p, q))
    r = list(c.call(e.to_strokes, w, c.rgb))
    c.ensures('one stroke', len(r) == 1)
    c.ensures('between the points drawn', And(*[eq(u, v) for u, v in zip(tuple(r[0]['start']) + tuple(r[0]['end']), p + q)]))
    c.ensures('of the width and colour drawn', And(eq(r[0]['width'], w), eq(r[0]['color'], c.code)))


@contract(['C17', 'C05', 'C08'], PA + 'R.to_strokes', n=0, stubs=COLOUR)
def rectangle(c):
    """the sides of a rectangle, whichever corners it is given by, are four strokes"""
    a = [c.real(n) for n in ('x0', 'y0', 'x1', 'y1')]
    w = c.real('width', 0, 100)
    c.rgb, c.code = (.1, .2, .3), c.int('colour', 0, 0xffffff)
    e = c.call(c.mod('shape.Path').R, ('re', c.mkrect(*a)))
    x0, x1, y0, y1 = Min(a[0], a[2]), Max(a[0], a[2]), Min(a[1], a[3]), Max(a[1], a[3])
    r = list(c.call(e.to_strokes, w, c.rgb))
    c.ensures('four strokes', len(r) == 4)
    sides = [((x0, y0), (x1, y0)), ((x1, y0), (x1, y1)), ((x0, y1), (x1, y1)), ((x0, y0), (x0, y1))]
    def on(s, side):
        (p, q), (u, v) = (tuple(s['start']), tuple(s['end'])), side
        return Or(And(eq(p[0], u[0]), eq(p[1], u[1]), eq(q[0], v[0]), eq(q[1], v[1])), And(eq(q[0], u[0]), eq(q[1], u[1]), eq(p[0], v[0]), eq(p[1], v[1])))
    for k, side in enumerate(sides): c.ensures(f'side {k} is a stroke', Or(*[on(s, side) for s in r]))
    c.ensures('of the colour drawn', And(*[eq(s['color'], c.code) for s in r]))
    c.ensures('of one width, the one drawn or (known finding) twice of it', And(*[And(Or(eq(s['width'], w), eq(s['width'], 2 * w)), eq(s['width'], r[0]['width'])) for s in r]))


# ------------------------------------------------ pieces of a path
class Corners:
    """stand-in of a quad, its corners in order around it"""
    _pyvc_stub = True
    def __init__(self, around): self.ul, self.ur, self.lr, self.ll = self.around = around


def pieces(c, n):
    """n commands of any kind, each at any place or continuing the one before"""
    out, at = [], None
    for k in range(n):
        kind = c.choice(f'command {k}', ['l', 'c', 're', 'qu'])
        if kind == 'qu': out.append(('qu', Corners([(c.real(f'qx{k}{m}', 0, 900), c.real(f'qy{k}{m}', 0, 900)) for m in range(4)]))); continue
        if kind == 're':
            x, y = c.real(f'rx{k}', 0, 900), c.real(f'ry{k}', 0, 900)
            out.append(('re', c.mkrect(x, y, x + c.real(f'rw{k}', 1, 90), y + c.real(f'rh{k}', 1, 90))))
            continue
        start = at if at is not None and c.choice(f'continues {k}', [True, False]) else (c.real(f'x{k}', 0, 900), c.real(f'y{k}', 0, 900))
        pts = [start] + [(c.real(f'x{k}{m}', 0, 900), c.real(f'y{k}{m}', 0, 900)) for m in range(1 if kind == 'l' else 3)]
        out.append((kind, *pts)); at = pts[-1]
    return out


@contract('C17', PA + 'Path._group_segments', n=0, within='paths of up to 3 commands')
def connected(c):
    """the commands of a path are divided where they do not continue, in order and without loss"""
    items = pieces(c, c.choice('commands', [0, 1, 2, 3]))
    r = [list(g) for g in c.call(c.mod('shape.Path').Path._group_segments, items)]
    quads = [i[1].around for i in items if i[0] == 'qu']
    own = [g for g in r if g and all(not any(i is j for j in items) for i in g)]
    rest = [g for g in r if not any(g is o for o in own)]
    if len(own) != len(quads) or not all(len(g) == 4 and all(i[0] == 'l' for i in g) for g in own): c.ensures('a quad is a piece of its own', False); return
    is_ = lambda p, q: And(eq(p[0], q[0]), eq(p[1], q[1]))
    for g, around in zip(own, quads):
        for p, q in zip(around, around[1:] + around[:1]):
            c.ensures('each side of a quad is a line of its piece', Or(*[Or(And(is_(i[1], p), is_(i[2], q)), And(is_(i[1], q), is_(i[2], p))) for i in g]))
    flat, items = [i for g in rest for i in g], [i for i in items if i[0] != 'qu']
    c.ensures('every command once, in order', len(flat) == len(items) and all(x is y for x, y in zip(flat, items)))
    c.ensures('a rectangle is alone, none is empty', all(len(g) == 1 or (g and all(i[0] != 're' for i in g)) for g in r))
    for g in r:
        for a, b in zip(g, g[1:]): c.ensures('the next begins where the one before ends', And(eq(a[-1][0], b[1][0]), eq(a[-1][1], b[1][1])))


class Piece:
    """stand-in of a line or curve through any number of points"""
    _pyvc_stub = True
    def __init__(self, points): self.points = points


@contract('C17', PA + 'Segments._cal_bbox_and_area', n=0, loops={1: Loop(types={'area': 'real'})})
def extent(c):
    """the box of a piece of a path is that of its points, however many"""
    pts = c.list('points', ('fix', 'real', 'real'))
    c.requires(Len(pts) >= 2)
    s = c.raw(c.mod('shape.Path').Segments, _instances=[Piece(pts)])
    b, area = c.call(s._cal_bbox_and_area)
    for k in (0, 1):
        c.ensures('no point is outside', forall(0, Len(pts), lambda j: And(b[k] <= at(pts, j)[k] + .0051, at(pts, j)[k] <= b[k + 2] + .0051)))
        for m in (k, k + 2): c.ensures('it reaches to the points', exists(0, Len(pts), lambda j: Abs(at(pts, j)[k] - b[m]) <= .0051))
    c.ensures('no area is negative', area >= 0)


@contract('C17', PA + 'Segments._cal_bbox_and_area', n=0)
def extent_of_few(c):
    """a rectangle fills its box, a line has no area, and so has what is not closed; others the area they enclose"""
    kind = c.choice('piece', ['line', 'rectangle', 'open', 'triangle'])
    P = [(c.real(f'x{k}', 0, 900), c.real(f'y{k}', 0, 900)) for k in range(3)]
    (x0, y0), (x1, y1), _ = P
    if kind == 'rectangle':
        s = c.call(c.mod('shape.Path').Segments, [('re', c.mkrect(x0, y0, x1, y1))])
        c.requires(x0 < x1, y0 < y1)
        c.ensures('a rectangle fills its box', And(eq(s.area, (x1 - x0) * (y1 - y0)), *[eq(u, v) for u, v in zip(s.bbox, (x0, y0, x1, y1))]))
        return
    c.requires(Abs(x0 - P[-1][0]) + Abs(y0 - P[-1][1]) > .01, Abs(x0 - x1) + Abs(y0 - y1) > .01)
    s = c.call(c.mod('shape.Path').Segments, {'line': [('l', P[0], P[1])], 'open': [('l', P[0], P[1]), ('l', P[1], P[2])], 'triangle': [('l', P[0], P[1]), ('l', P[1], P[2]), ('l', P[2], P[0])]}[kind])
    if kind != 'triangle': return c.ensures('no area', eq(s.area, 0))
    x2, y2 = P[2]
    c.ensures('the area of a triangle', eq(2 * s.area, Abs((x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0))))


STRAIGHT = ufun('straight', 'bool')


@contract('C17', PA + 'Segments.is_iso_oriented', n=0)
def straight_piece(c):
    """a piece is straight if it is a line along the page, or fills its box by nine tenths"""
    b, a = c.rect('box'), c.real('area', 0)
    s = c.raw(c.mod('shape.Path').Segments, bbox=b, area=a, _instances=[])
    r = c.call(lambda: s.is_iso_oriented)
    w, h = b[2] - b[0], b[3] - b[1]
    empty = Or(w <= 0, h <= 0)
    c.ensures('a line along the page is straight', Implies(empty, r))
    c.ensures('a rectangle is straight', Implies(And(Not(empty), eq(a, w * h)), r))
    c.ensures('what fills less than nine tenths of its box is not', Implies(And(Not(empty), a < .9 * w * h - .001 * w * h), Not(r)))


schema('Segments', area='real')


ALONG = ufun('along the page', 'bool')
FILL = [None]
GOOD = lambda s: Or(STRAIGHT(s), ALONG(s))


@contract('C17', PA + 'Path.is_iso_oriented', n=0, stubs={PA + 'Segments.is_iso_oriented': lambda ctx: (lambda self: STRAIGHT(self)), PA + 'Segments.is_iso_lines': lambda ctx: (lambda self: ALONG(self))},
          loops={0: Loop(inv=lambda L: [('all before are straight', forall(0, L.k_, lambda j: GOOD(at(L.seq_, j)) if FILL[0] is None else STRAIGHT(at(L.seq_, j))))])})
def straight_path(c):
    """a path is straight exactly if all its pieces are: areas if filled, else areas or just lines along the page"""
    items = c.list('pieces', ('obj', 'shape.Path:Segments'))
    fill = c.choice('fill', [None, (1, 1, 1), (0, 0, 0)])
    FILL[0] = fill
    p = c.raw(c.mod('shape.Path').Path, items=items, raw={'fill': fill, 'color': c.choice('colour', [None, (0, 0, 0)])} if fill or c.choice('fill is given', [True, False]) else {})
    r = c.call(lambda: p.is_iso_oriented)
    one = STRAIGHT if fill else GOOD
    c.ensures('all pieces are straight', Iff(r, forall(0, Len(items), lambda j: one(at(items, j)))))


@contract('C17', PA + 'Segments.is_iso_lines', n=0, loops={0: Loop(inv=lambda L: [('all before are along the page', forall(0, L.k_, lambda j: along(at(L.seq_, j).points)))])})
def lines_along(c):
    """a piece of lines is along the page exactly if each of its lines is horizontal or vertical"""
    S = c.raw(c.mod('shape.Path').Segments, bbox=c.rect('box'), area=c.real('area', 0), _instances=c.list('lines', ('obj', 'shape.Path:L')))
    c.requires(forall(0, Len(S._instances), lambda j: And(*[Or(d <= .001, d >= .011) for d in off(at(S._instances, j).points)])))
    r = c.call(lambda: S.is_iso_lines)
    c.ensures('each line is along the page', Iff(r, forall(0, Len(S._instances), lambda j: along(at(S._instances, j).points))))


schema('L', points=('tuple', ('tuple', 'real', 'real'), ('tuple', 'real', 'real')))
off = lambda p: (Abs(p[1][0] - p[0][0]), Abs(p[1][1] - p[0][1]))
along = lambda p: Or(*[d <= .005 for d in off(p)])


@contract('C17', PA + 'Segments.is_iso_lines', n=0)
def curve_along(c):
    """what has a curve is not of lines along the page"""
    P = c.mod('shape.Path')
    items = [('l', (0., 0.), (9., 0.)), ('c', (9., 0.), *[(c.real(f'x{k}', 0, 900), c.real(f'y{k}', 0, 900)) for k in range(3)])]
    if c.choice('first', [True, False]): items.reverse()
    S = c.raw(P.Segments, bbox=c.rect('box'), area=c.real('area', 0), _instances=[P.L(i) if i[0] == 'l' else P.C(i) for i in items])
    c.ensures('it is not', Not(c.call(lambda: S.is_iso_lines)))


@contract(['C17', 'C05', 'C08'], PA + 'Path.to_shapes', n=0, stubs={
    PA + 'Path._to_strokes': lambda ctx: (lambda self, width, color: ctx.log.append(('strokes', width, color)) or ['s1', 's2']),
    PA + 'Path._to_fills': lambda ctx: (lambda self, color: ctx.log.append(('fills', color)) or ['f'])})
def path_shapes(c):
    """a path that is drawn gives lines, one that is filled areas, one that is both both"""
    w, c.log = c.choice('width', [None, 0, 0.0, 2.0]), []
    stroke, fill = c.choice('line colour', [None, (1, 0, 0), (0, 0, 0)]), c.choice('fill colour', [None, (0, 0, 1), (0, 0, 0)])
    p = c.raw(c.mod('shape.Path').Path, raw={'color': stroke, 'fill': fill, 'width': w, 'items': []}, items=[])
    r = list(c.call(p.to_shapes))
    c.ensures('lines if there is a line colour, areas if there is a fill colour', r == (['s1', 's2'] if stroke else []) + (['f'] if fill else []))
    c.ensures('each once, in its colour', [(v[0], v[-1]) for v in c.log] == ([('strokes', stroke)] if stroke else []) + ([('fills', fill)] if fill else []))
    if stroke: c.ensures('a line is as wide as drawn, the thinnest one if no width is given', c.log[0][1] == 2.0 if w else 0 < c.log[0][1] < .5)


def as_strokes(ctx):
    def stub(self, width, color):
        ctx.ensures('the width and colour of the path', width == 2.0 and color == 'red')
        return [{'of': self, 'n': 0}, {'of': self, 'n': 1}]
    return stub


def fill_of(ctx):
    def stub(self, color):
        ctx.ensures('the colour of the path', color == 'red')
        return {'of': self, 'n': 0}
    return stub


REC = {'of': ('obj', 'shape.Path:Segments'), 'n': 'int'}


@contract(['C17', 'C05', 'C08'], PA + 'Path._to_fills', n=0, stubs={PA + 'Segments.to_fill': fill_of},
          loops={0: Loop(inv=lambda L: [('one for each', eq(Len(L.fills), L.k_)), ('in order', forall(0, L.k_, lambda j: same(at(L.fills, j)['of'], at(L.seq_, j))))], types={'fills': ('rec', REC)})})
def fills(c):
    items = c.list('pieces', ('obj', 'shape.Path:Segments'))
    p = c.raw(c.mod('shape.Path').Path, items=items, raw={})
    r = c.call(p._to_fills, 'red')
    c.ensures('every piece is one area', eq(Len(r), Len(items)))
    c.ensures('in order', forall(0, Len(items), lambda j: same(at(r, j)['of'], at(items, j))))


@contract(['C17', 'C05', 'C08'], PA + 'Path._to_strokes', n=0, stubs={PA + 'Segments.to_strokes': as_strokes},
          loops={0: Loop(inv=lambda L: [('two for each', eq(Len(L.strokes), 2 * L.k_)), ('in order', forall(0, L.k_, lambda j: And(same(at(L.strokes, 2 * j)['of'], at(L.seq_, j)), same(at(L.strokes, 2 * j + 1)['of'], at(L.seq_, j)))))], types={'strokes': ('rec', REC)})})
def strokes(c):
    """(every piece is taken to give two lines)"""
    items = c.list('pieces', ('obj', 'shape.Path:Segments'))
    p = c.raw(c.mod('shape.Path').Path, items=items, raw={})
    r = c.call(p._to_strokes, 2.0, 'red')
    c.ensures('all lines of every piece', eq(Len(r), 2 * Len(items)))
    c.ensures('in order', forall(0, Len(items), lambda j: And(same(at(r, 2 * j)['of'], at(items, j)), same(at(r, 2 * j + 1)['of'], at(items, j)))))


@contract(['C17', 'C05', 'C08'], PA + 'Segments.to_fill', n=0, stubs=COLOUR)
def fill(c):
    b = c.rect('box')
    c.rgb, c.code = (.1, .2, .3), c.int('colour', 0, 0xffffff)
    s = c.raw(c.mod('shape.Path').Segments, bbox=b, area=c.real('area'), _instances=[])
    r = c.call(s.to_fill, c.rgb)
    c.ensures('the area of the piece in its colour', And(eq(r['color'], c.code), *[eq(u, v) for u, v in zip(r['bbox'], b)]))


# ------------------------------------------------ paths of a page
@contract('C17', 'shape.Paths:Paths.contains_curve', n=0, stubs={PA + 'Path.is_iso_oriented': lambda ctx: (lambda self: not self.curved)}, within='groups of up to 5 paths')
def share(c):
    """curved: more than the share set of its paths is not straight"""
    n, ratio = c.choice('paths', [0, 1, 2, 3, 4, 5]), c.real('ratio', 0, 1)
    P, Q = c.mod('shape.Path').Path, c.mod('shape.Paths').Paths
    wide = [c.real(f'width {k}', .5, 20) for k in range(n)]
    ps = [c.raw(P, raw={'color': (0, 0, 0), 'width': wide[k]}, items=[], curved=c.choice(f'curved {k}', [True, False])) for k in range(n)]
    m = sum(p.curved for p in ps)
    r = c.call(c.raw(Q, _instances=ps, _parent=None).contains_curve, ratio)
    c.requires(Abs(m - ratio * n) > 1e-9)
    c.ensures('more than the share set', Iff(bool(r) if not n else r, m > ratio * n))


@contract('C17', 'shape.Paths:Paths.to_shapes', n=0, stubs={
    'common.Collection:BaseCollection.group_by_connectivity': lambda ctx: (lambda self, dx=0.0, dy=0.0: ctx.connected(self, dx, dy)),
    'shape.Paths:Paths.contains_curve': lambda ctx: (lambda self, ratio: ctx.curved(self, ratio)),
    PA + 'Path.is_iso_oriented': lambda ctx: (lambda self: self.straight), PA + 'Path.to_shapes': lambda ctx: (lambda self: [(self, 1), (self, 2)])},
    within='pages of up to 3 paths, in any groups')
def divided(c):
    """every path is either part of a drawing shown as picture, or (if straight) lines and areas"""
    P, Q = c.mod('shape.Path').Path, c.mod('shape.Paths').Paths
    n, ratio = c.choice('paths', [0, 1, 2, 3]), c.real('ratio', 0, 1)
    wide = [c.real(f'width {k}', .5, 20) for k in range(n)]
    ps = [c.raw(P, raw={'color': (0, 0, 0), 'width': wide[k]}, items=[], bbox=c.mkrect(k, 1, k + 1, 2), straight=c.choice(f'straight {k}', [True, False])) for k in range(n)]
    group = []
    for k in range(n): group.append(c.choice(f'group {k}', list(range(max(group, default=-1) + 2))))
    groups = [c.raw(Q, _instances=[p for p, h in zip(ps, group) if h == g], _parent=None) for g in sorted(set(group))]
    is_curved = {g: c.choice(f'curved {g}', [True, False]) for g in range(len(groups))}
    def connected(self, dx, dy):
        c.ensures('all paths are grouped', [p for p in self] == ps)
        c.ensures('paths that touch are together', And(dx >= 0, dx < 1, dy >= 0, dy < 1))
        return list(groups)
    def curved(self, r):
        c.ensures('by the share set', eq(r, ratio))
        return is_curved[next(k for k, g in enumerate(groups) if g is self)]
    c.connected, c.curved = connected, curved
    shapes, areas, drawing = c.call(c.raw(Q, _instances=list(ps), _parent=None).to_shapes, ratio)
    c.ensures('there is a drawing exactly if a group is curved', bool(drawing) == any(is_curved.values()))
    want = [(p, m) for p, g in sorted(zip(ps, group), key=lambda v: v[1]) if not is_curved[g] and p.straight for m in (1, 2)]
    got = list(shapes)
    c.ensures('all shapes of straight paths that are in no drawing, once', len(got) == len(want) and all(any(s[0] is w[0] and s[1] == w[1] for s in got) for w in want))
    mine, areas = [(p.bbox, w) for p, g, w in zip(ps, group, wide) if not is_curved[g]], list(areas)
    holds = lambda a, b, w: And(a[0] <= b[0] - w / 2, a[1] <= b[1] - w / 2, a[2] >= b[2] + w / 2, a[3] >= b[3] + w / 2)
    c.ensures('what is not in a drawing has an area, with its lines', And(*[Or(*[holds(a, b, w) for a in areas]) for b, w in mine]))
    c.ensures('not much larger', And(*[Or(*[And(a[0] >= b[0] - w - 1, a[1] >= b[1] - w - 1, a[2] <= b[2] + w + 1, a[3] <= b[3] + w + 1) for b, w in mine]) for a in areas]))




# ------------------------------------------------ pictures of drawings
def clip(ctx):
    def stub(cls, page, bbox=None, zoom=3.0):
        ctx.ensures('this page, at the resolution asked for', page is ctx.page and eq(zoom, ctx.zoom))
        return bbox
    return stub


def to_raw(ctx):
    def stub(cls, image, bbox): return {'shows': image, 'bbox': bbox}
    return stub


def clipped(L):
    g = ghost('vector pictures')
    return [('one for each', eq(Len(L.images), L.k_)), ('shows its area', forall(0, L.k_, lambda j: near(at(L.images, j)['shows'], g.box(j), 0))),
            ('is displayed there', forall(0, L.k_, lambda j: near(g.shown(at(L.images, j)['bbox']), g.box(j), 0)))]


class Facts:
    _pyvc_stub = True


schema('Element', bbox='rect')


@contract('C17', EX + '.extract_vector_graphics', n=0, stubs={EX + '._detect_svg_contours': lambda ctx: (lambda cls, page, exclude: ctx.found(page, exclude)), EX + '._clip_page': clip, EX + '._to_raw_dict': to_raw},
          loops={0: Loop(inv=clipped, types={'images': ('rec', {'shows': 'rect', 'bbox': 'rect'})})}, assumes=['OpenCV finds the outlines of drawings (bounded: cross-checks compare pixels)'])
def pictured(c):
    """every group of outlines is one picture of its area, displayed there, on pages with any rotation"""
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, d = turns(c, w, h)
    class P:
        _pyvc_stub = True
        rotation, rotationMatrix, derotationMatrix = deg, m, d
    groups = c.list('groups', ('obj', 'common.Element:Element'))
    class Group:
        _pyvc_stub = True
    c.page, c.zoom, areas = P(), c.real('zoom', .1, 10), ['areas']
    c.requires(forall(0, Len(groups), lambda j: And(at(groups, j).bbox[0] < at(groups, j).bbox[2], at(groups, j).bbox[1] < at(groups, j).bbox[3])))
    a, b = c.rect('a', nonempty=True), c.rect('b', nonempty=True)
    class E:
        _pyvc_stub = True
        def __init__(self, r): self.bbox = r
    class Found:
        _pyvc_stub = True
        def group(self, fun):
            r = fun(E(a), E(b))
            c.ensures('outlines that overlap are together', Implies(And(Max(a[0], b[0]) < Min(a[2], b[2]), Max(a[1], b[1]) < Min(a[3], b[3])), r))
            c.ensures('those apart are not', Implies(Or(Max(a[0], b[0]) > Min(a[2], b[2]), Max(a[1], b[1]) > Min(a[3], b[3])), Not(r)))
            return groups
    def found(page, exclude):
        c.ensures('looked for outside of the areas given', page is c.page and exclude is areas)
        return Found()
    c.found = found
    g = ghost('vector pictures', Facts())
    g.box, g.shown = (lambda j: at(groups, j).bbox), (lambda r: shown(r, deg, w, h))
    out = c.call(c.mod('image.ImagesExtractor').ImagesExtractor.extract_vector_graphics, c.page, areas, c.zoom)
    c.ensures('one picture for each', eq(Len(out), Len(groups)))
    c.ensures('it shows its area of the page', forall(0, Len(groups), lambda j: near(at(out, j)['shows'], g.box(j), 0)))
    c.ensures('and is displayed there', forall(0, Len(groups), lambda j: near(g.shown(at(out, j)['bbox']), g.box(j), 0)))


@contract('C17', 'page.RawPage:RawPage._preprocess_shapes', n=0, stubs={
    EX + '.extract_vector_graphics': lambda ctx: (lambda cls, page, areas, ratio=3.0: ctx.pictures(page, areas, ratio)),
    'shape.Paths:Paths.restore': lambda ctx: (lambda self, raws: ctx.restored(self, raws)), 'shape.Paths:Paths.to_shapes': lambda ctx: (lambda self, ratio=.2: ctx.shapes(self, ratio)),
    'page.RawPage:RawPage._get_drawings': lambda ctx: (lambda page: ctx.drawings(page)), 'page.RawPage:RawPage._preprocess_hyperlinks': lambda ctx: (lambda page: ctx.links(page))})
def assembled(c):
    """all shapes, links and pictures of drawings are added to the page, and nothing is lost"""
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, d = turns(c, w, h)
    class F:
        _pyvc_stub = True
        rotationMatrix, derotationMatrix, rotation = m, d, deg
    box, page, zoom, share = c.rect('picture', nonempty=True), F(), c.real('zoom', .1, 10), c.real('share', 0, 1)
    text, pic, drawn = {'type': 0, 'bbox': (1, 2, 3, 4)}, {'type': 1, 'bbox': tuple(box)}, {'type': 1, 'bbox': (5, 6, 7, 8), 'of': 'drawing'}
    line, link, area = {'start': (1, 1)}, {'uri': 'u'}, c.mkrect(9, 9, 10, 10)
    curved, picture, linked = c.choice('curved', [True, False]), c.choice('a picture', [True, False]), c.choice('linked', [True, False])
    log = []
    def restored(paths, raws): c.ensures('all drawings of this page', raws == ['raw paths']); log.append('restored'); return paths
    def shapes(paths, ratio): c.ensures('by the share set', eq(ratio, share)); return [line], [area], curved
    def pictures(p, areas, ratio):
        c.ensures('of this page, at the resolution set', p is page and eq(ratio, zoom))
        areas = list(areas)
        c.ensures('outside of straight drawings', any(a is area for a in areas))
        c.ensures('and outside of pictures, as displayed', len(areas) == 1 + picture and all(a is area or near(a, shown(box, deg, w, h), 0) for a in areas))
        return [drawn]
    c.restored, c.shapes, c.pictures = restored, shapes, pictures
    c.drawings = lambda p: ['raw paths'] if p is page else []
    c.links = lambda p: [link] if linked and p is page else []
    raw = {'blocks': [text] + ([pic] if picture else [])}
    p = c.raw(c.mod('page.Page').Page, settings={'debug': False, 'curve_path_ratio': share, 'clip_image_res_ratio': zoom}, fitz_page=page, width=100, height=200)
    c.call(p._preprocess_shapes, raw)
    bs, ss = list(raw['blocks']), list(raw['shapes'])
    want = [text] + ([pic] if picture else []) + ([drawn] if curved else [])
    c.ensures('blocks as before, and the pictures of drawings if there are', len(bs) == len(want) and all(x is y for x, y in zip(bs, want)))
    want = [line] + ([link] if linked else [])
    c.ensures('the lines and areas, and the links', len(ss) == len(want) and all(any(x is y for x in ss) for y in want))


def piece_of(ctx):
    """stand-in of Segments: a box"""
    class Segments:
        _pyvc_stub = True
        def __init__(self, items, close_path=False):
            ctx.ensures('closed as the path is', close_path == ctx.closed)
            self.items, self.bbox = items, ctx.boxes[items[0]]
    return Segments


@contract('C17', PA + 'Path.__init__', n=0, stubs={PA + 'Path._group_segments': lambda ctx: (lambda items: ctx.groups(items)), PA + 'Segments': piece_of}, within='paths of up to 2 pieces')
def path_box(c):
    """the box of a path covers its pieces, and is not empty for a line"""
    n, w, c.boxes = c.choice('pieces', [1, 2]), c.choice('width', [None, 3.0]), []
    c.closed = c.choice('closed', [True, False])
    for k in range(n):
        x, y, u, v = c.real(f'x{k}', 0, 900), c.real(f'y{k}', 0, 900), c.real(f'u{k}', 1, 90), c.real(f'v{k}', 1, 90)
        kind = c.choice(f'kind {k}', ['along', 'down', 'area'])
        c.boxes.append(c.mkrect(x, y, x if kind == 'down' else x + u, y if kind == 'along' else y + v))
    def groups(items): c.ensures('of all commands', items == 'items'); return [[k] for k in range(n)]
    c.groups = groups
    p = c.call(c.mod('shape.Path').Path, {'color': (0, 0, 0), 'width': w, 'closePath': c.closed, 'items': 'items'})
    b = p.bbox
    for r in c.boxes: c.ensures('no piece is outside', And(b[0] <= r[0], r[2] <= b[2], b[1] <= r[1], r[3] <= b[3]))
    c.ensures('it is not empty', And(b[0] < b[2], b[1] < b[3]))
    for k, u in ((0, Min), (1, Min), (2, Max), (3, Max)):
        m = c.boxes[0][k]
        for r in c.boxes[1:]: m = u(m, r[k])
        c.ensures('it exceeds the pieces by no more than the width', Abs(b[k] - m) <= (w or .5))
    c.ensures('all pieces, in order', [list(s.items)[0] for s in p.items] == list(range(n)))


# ------------------------------------------------ shapes
SH = 'shape.Shape:'


@contract(['C05', 'C08', 'C17'], SH + 'Fill.to_stroke', n=0)
def thin_area(c):
    """an area is a line exactly if it is not wider than the widest border; the line covers the same"""
    upright(c)
    S = c.mod('shape.Shape')
    b = [c.int(f'b{k}', 0, 9000) / 10 for k in range(4)]
    c.requires(b[0] < b[2], b[1] < b[3])
    most = c.real('widest border', 0, 50)
    f = c.call(S.Fill, {'bbox': tuple(b), 'color': 77})
    s = c.call(f.to_stroke, most)
    w, h = b[2] - b[0], b[3] - b[1]
    c.requires(Abs(Min(w, h) - most) > 1e-6)
    c.ensures('a line exactly if it is thin', Iff(s is not None, Min(w, h) <= most))
    if s is None: return
    c.ensures('of its width and colour', And(eq(s.width, Min(w, h)), s.color == 77))
    c.ensures('at the same place', And(*[Abs(u - v) <= .051 for u, v in zip(s.bbox, b)]))
    c.ensures('along its longer side, in the middle', Ite(w >= h, And(bool(s.horizontal) if not sym() else s.horizontal, eq(s.y0 * 2, b[1] + b[3]), eq(s.x0, b[0]), eq(s.x1, b[2])), And(s.vertical, eq(s.x0 * 2, b[0] + b[2]), eq(s.y0, b[1]), eq(s.y1, b[3]))))


@contract(['C05', 'C08', 'C17'], SH + 'Stroke.__init__', n=0)
def stroke(c):
    """a line read covers what is drawn, whichever end it starts at"""
    upright(c)
    S = c.mod('shape.Shape')
    hor, back = c.choice('horizontal', [True, False]), c.choice('backwards', [True, False])
    x, y, n, w = c.real('x', 0, 900), c.real('y', 0, 900), c.real('length', 0, 900), c.real('width', 0, 40)
    p, q = (x, y), ((x + n, y) if hor else (x, y + n))
    s = c.call(S.Stroke, {'start': q if back else p, 'end': p if back else q, 'width': w, 'color': 55})
    c.ensures('from start to end', And(eq(s.x0, p[0]), eq(s.y0, p[1]), eq(s.x1, q[0]), eq(s.y1, q[1])))
    c.ensures('width and colour', And(eq(s.width, w), s.color == 55))
    c.ensures('it covers its width', And(*[Abs(u - v) <= .051 for u, v in zip(s.bbox, (p[0] - w / 2, p[1] - w / 2, q[0] + w / 2, q[1] + w / 2))]))
    c.ensures('its direction', And(Implies(n > .01, s.horizontal if hor else s.vertical), Implies(n > .01, Not(s.vertical if hor else s.horizontal))))


@contract(['C05', 'C08', 'C17'], 'shape.Shapes:Shapes.restore', n=0, within='up to 3 shapes')
def kinds(c):
    """every shape read is a line, an area or a link"""
    upright(c)
    S, T = c.mod('shape.Shape'), c.mod('shape.Shapes').Shapes
    raws, ks = [], [c.choice(f'kind {k}', ['line', 'area', 'link']) for k in range(c.choice('shapes', [0, 1, 2, 3]))]
    for k, v in enumerate(ks): raws.append({'line': {'start': (k, 5), 'end': (k + 9, 5), 'width': 1.0, 'color': k}, 'area': {'bbox': (k, 5, k + 9, 30), 'color': k}, 'link': {'bbox': (k, 5, k + 9, 30), 'uri': f'u{k}', 'type': 1, 'color': k}}[v])
    sh = c.raw(T, _instances=c.vlist([]), _parent=None)
    c.call(sh.restore, raws)
    got = list(sh)
    c.ensures('each once, in order', len(got) == len(ks) and all(e.color == k for k, e in enumerate(got)))
    c.ensures('of its kind', all(type(e) is {'line': S.Stroke, 'area': S.Fill, 'link': S.Hyperlink}[v] for e, v in zip(got, ks)))
    c.ensures('links keep their address', all(e.uri == f'u{k}' for k, (e, v) in enumerate(zip(got, ks)) if v == 'link'))
