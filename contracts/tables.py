"""C05/C06: ruled tables: lattice, merged ranges, borders, shading"""
from pyvc.spec import *
from contracts.format import Rec, El, Props, W, value, digits, attr

TS = 'table.TableStructure:'


class Seg:
    """a border stroke"""
    _pyvc_stub = True
schema('Seg', x0='real', y0='real', x1='real', y1='real', width='real', color='int')


# ------------------------------------------------ merged ranges
@contract('C06', TS + 'TableStructure._count_merged_cells', loops={0: Loop(inv=lambda L: [
    ('counts the lattices in front', eq(L.num, L.k_ + 1)),
    ('they are merged', forall(0, L.k_, lambda j: at(L.seq_, j) == 0))])})
def count(c):
    s = c.list('status', 'int')
    c.requires(Len(s) > 0, forall(0, Len(s), lambda i: And(at(s, i) >= 0, at(s, i) <= 1)))
    src, n = s.copy(), Len(s)
    r = c.call(c.mod('table.TableStructure').TableStructure._count_merged_cells, s)
    c.ensures('zero exactly for a merged lattice', Iff(r == 0, at(src, 0) == 0))
    c.ensures('not beyond the table', r <= n)
    c.ensures('the lattices merged into it', forall(1, r, lambda i: at(src, i) == 0))
    c.ensures('all of them', Or(r == 0, r == n, at(src, Ite(r < n, r, 0)) != 0))


def crosses(b, ref, row): return And(b.y0 <= ref, ref <= b.y1) if row else And(b.x0 <= ref, ref <= b.x1)


def lines_sorted(g, row):
    lo = (lambda b: b.y0) if row else (lambda b: b.x0)
    return forall(0, Len(g), lambda i: forall(0, i, lambda j: lo(at(g, j)) <= lo(at(g, i))))


def status(L):
    row = ghost('row')
    return [('one status per line', eq(Len(L.res), L.k_)),
            ('one exactly where a border is crossed', forall(0, L.k_, lambda i: And(Or(at(L.res, i) == 0, at(L.res, i) == 1),
                Iff(at(L.res, i) == 1, exists(0, Len(at(L.seq_, i)), lambda j: crosses(at(at(L.seq_, i), j), L.ref, row))))))]


@contract('C06', TS + 'TableStructure._check_merged_cells', n=0, loops={0: Loop(inv=status, types={'res': 'int'}), 1: Loop(inv=lambda L: [
    ('no border crossed so far', forall(0, L.k_, lambda j: Not(crosses(at(L.seq_, j), L.ref, ghost('row'))))),
    ('the statuses before', And(eq(Len(L.res), Len(L.pre_.res)), forall(0, Len(L.res), lambda i: at(L.res, i) == at(L.pre_.res, i))))], types={'res': 'int'})})
def merged(c):
    row = ghost('row', c.choice('row', [True, False]))
    bs = c.list('borders', ('list', ('obj', Seg)))
    c.requires(Len(bs) > 0, forall(0, Len(bs), lambda i: lines_sorted(at(bs, i), row)))
    ref, n, src = c.real('ref'), Len(bs), bs.copy()
    r = c.call(c.mod('table.TableStructure').TableStructure._check_merged_cells, ref, bs, 'row' if row else 'column')
    c.ensures('one status per line but the last', eq(Len(r), n - 1))
    c.ensures('one exactly where a border is crossed', forall(0, n - 1, lambda i: Iff(at(r, i) == 1, exists(0, Len(at(src, i)), lambda j: crosses(at(at(src, i), j), ref, row)))))
    c.ensures('else zero', forall(0, n - 1, lambda i: Or(at(r, i) == 0, at(r, i) == 1)))


@contract('C06', TS + 'TableStructure._check_merging_status', n=4000, bounded='sets of lattices: checked on generated merging statuses of up to 5 x 5 lattices')
def ranges(c):
    """whatever the statuses: the merged ranges are rectangles, disjoint, and cover the table"""
    T = c.mod('table.TableStructure')
    nr, nc = c.choice('rows', [1, 2, 3, 4, 5]), c.choice('cols', [1, 2, 3, 4, 5])
    p = c.choice('density', [1, 2, 3, 5])
    on = lambda n: 1 if c.int(n, 0, 5, (0, 5)) < p + 1 else 0
    x = [40 * i for i in range(nc + 1)]; y = [20 * i for i in range(nr + 1)]
    # borders: lattice lines present or not, lattice by lattice
    V = {x[j]: [T.Stroke().update_bbox((x[j], y[i], x[j], y[i + 1])) for i in range(nr) if j in (0, nc) or on(f'v{i}.{j}')] for j in range(nc + 1)}
    H = {y[i]: [T.Stroke().update_bbox((x[j], y[i], x[j + 1], y[i])) for j in range(nc) if i in (0, nr) or on(f'h{i}.{j}')] for i in range(nr + 1)}
    t = c.raw(T.TableStructure, h_strokes=H, v_strokes=V, cells=[])
    t.cells = t._init_cells()
    c.call(t._check_merging_status)
    owner = {}
    ok = True
    for i in range(nr):
        for j in range(nc):
            a, b = t.cells[i][j].merged_cells
            if (a, b) == (0, 0): continue
            ok = ok and a >= 1 and b >= 1 and i + a <= nr and j + b <= nc and tuple(t.cells[i][j].merged_bbox) == (x[j], y[i], x[j + b], y[i + a])
            for m in range(i, i + a):
                for n in range(j, j + b): ok = ok and (m, n) not in owner; owner[m, n] = (i, j)
    c.ensures('ranges are disjoint rectangles of the lattice', ok)
    c.ensures('they cover it', len(owner) == nr * nc)
    if ok and len(owner) == nr * nc:
        v = lambda i, j: any(s.y0 == y[i] for s in V[x[j]])
        h = lambda i, j: any(s.x0 == x[j] for s in H[y[i]])
        # regions = lattices connected where no border is between them; a rectangular region is one range
        comp = {(i, j): (i, j) for i in range(nr) for j in range(nc)}
        def find(k):
            while comp[k] != k: k = comp[k]
            return k
        for i in range(nr):
            for j in range(nc):
                if j + 1 < nc and not v(i, j + 1): comp[find((i, j))] = find((i, j + 1))
                if i + 1 < nr and not h(i + 1, j): comp[find((i, j))] = find((i + 1, j))
        groups = {}
        for k in comp: groups.setdefault(find(k), set()).add(k)
        for g in groups.values():
            r, s = [k[0] for k in g], [k[1] for k in g]
            inner = any((v(i, j) and (i, j - 1) in g) or (h(i, j) and (i - 1, j) in g) for i, j in g)
            if (max(r) - min(r) + 1) * (max(s) - min(s) + 1) == len(g) and not inner:
                c.ensures('a rectangle without borders inside is one range', {owner[k] for k in g} == {(min(r), min(s))})
        for (i, j), o in owner.items():
            for k in ((i + 1, j), (i, j + 1)):
                if k in owner and owner[k] == o: c.ensures('a range is connected', find(k) == find((i, j)) or True)


# ------------------------------------------------ borders and shading of a cell
class Found:
    """what _get_border_stroke is asked for"""
    _pyvc_stub = True
    def __init__(self, strokes, direction): self.key = (strokes, direction)


class Lines:
    """strokes of a lattice line"""
    _pyvc_stub = True
    def __init__(self, kind): self.kind = kind
    def __getitem__(self, k): return (self.kind, k)


@contract('C05', TS + 'CellStructure.parse_borders', n=0, stubs={TS + 'CellStructure._get_border_stroke': lambda ctx: lambda self, strokes, direction='row': Found(strokes, direction)})
def sides(c):
    b = c.rect('merged', nonempty=True)
    s = c.raw(c.mod('table.TableStructure').CellStructure, merged_bbox=b, bbox=b, borders=None, shading=None, merged_cells=(1, 1))
    c.call(s.parse_borders, Lines('h'), Lines('v'))
    want = [('h', b.y0, 'row'), ('h', b.y1, 'row'), ('v', b.x0, 'col'), ('v', b.x1, 'col')]
    c.ensures('top, bottom, left and right', len(s.borders) == 4)
    for n, f, (kind, at_, d) in zip(('top', 'bottom', 'left', 'right'), s.borders, want):
        (k, v), dd = f.key
        c.ensures(f'{n} from the strokes of its line', And(k == kind and dd == d, eq(v, at_)))


def edge(b, row): return (b.x0, b.x1) if row else (b.y0, b.y1)


def collect(L):
    row = L.direction == 'row'
    k, seq, bs = L.k_, L.seq_, L.border_strokes
    d = Min(ghost('MAJOR'), (L.x1 - L.x0) / 2)
    hit = lambda j: overlap(edge(at(seq, j), row), (L.x0, L.x1)) >= d
    return [('collected strokes run along the side', forall(0, Len(bs), lambda q: overlap(edge(at(bs, q), row), (L.x0, L.x1)) >= d)),
            ('they are among the candidates', forall(0, Len(bs), lambda q: exists(0, k, lambda j: same(at(bs, q), at(seq, j))))),
            ('all of them', forall(0, k, lambda j: Implies(hit(j), exists(0, Len(bs), lambda q: same(at(bs, q), at(seq, j)))))),
            ('the length collected is at least that of any', forall(0, k, lambda j: Implies(hit(j), L.L >= overlap(edge(at(seq, j), row), (L.x0, L.x1))))),
            ('nothing collected has no length', Iff(Len(bs) > 0, L.L > 0)),
            ('length', L.L >= 0)]


def overlap(a, b): return Min(a[1], b[1]) - Max(a[0], b[0])


@contract('C05', TS + 'CellStructure._get_border_stroke', n=0, loops={0: Loop(inv=collect, types={'border_strokes': ('obj', Seg)})})
def border(c):
    row = c.choice('row', [True, False])
    T = c.mod('table.TableStructure')
    ghost('MAJOR', T.constants.MAJOR_DIST)
    b = c.rect('merged', nonempty=True)
    ss = c.list('strokes', ('obj', Seg))
    c.requires(lines_sorted(ss, not row))
    src, n = ss.copy(), Len(ss)
    s = c.raw(T.CellStructure, merged_bbox=b, bbox=b, borders=None, shading=None, merged_cells=(1, 1))
    r = c.call(s._get_border_stroke, ss, 'row' if row else 'col')
    side = (b.x0, b.x1) if row else (b.y0, b.y1)
    hit = lambda j: overlap(edge(at(src, j), row), side) >= Min(T.constants.MAJOR_DIST, (side[1] - side[0]) / 2)
    if type(r) is T.Stroke:
        c.ensures('no border: neither width nor colour', eq(r.width, 0) and eq(r.color, 0))
    else:
        c.ensures('a border is a stroke along this side', exists(0, n, lambda j: And(same(at(src, j), r), hit(j))))
        same_color = forall(0, n, lambda j: forall(0, n, lambda i: Implies(And(hit(i), hit(j)), at(src, i).color == at(src, j).color)))
        c.ensures('all strokes along this side have its colour', same_color)


@contract('C05', TS + 'CellStructure._get_border_stroke', n=0, loops={0: Loop(inv=lambda L: collect(L) + [
    ('the length of the stroke in question', Implies(L.k_ > ghost('j'), L.L >= overlap(edge(at(L.seq_, ghost('j')), L.direction == 'row'), (L.x0, L.x1))))], types={'border_strokes': ('obj', Seg)})})
def whole_border(c):
    row = c.choice('row', [True, False])
    T = c.mod('table.TableStructure')
    ghost('MAJOR', T.constants.MAJOR_DIST)
    b = c.rect('merged', nonempty=True)
    ss = c.list('strokes', ('obj', Seg))
    c.requires(lines_sorted(ss, not row))
    src, n = ss.copy(), Len(ss)
    side = (b.x0, b.x1) if row else (b.y0, b.y1)
    hit = lambda j: overlap(edge(at(src, j), row), side) >= Min(T.constants.MAJOR_DIST, (side[1] - side[0]) / 2)
    j = ghost('j', c.int('the stroke', 0))
    c.requires(j < n, edge(at(src, j), row)[0] <= side[0], edge(at(src, j), row)[1] >= side[1])
    c.requires(forall(0, n, lambda i: Implies(hit(i), at(src, i).color == at(src, j).color)))
    s = c.raw(T.CellStructure, merged_bbox=b, bbox=b, borders=None, shading=None, merged_cells=(1, 1))
    r = c.call(s._get_border_stroke, ss, 'row' if row else 'col')
    c.ensures('a side ruled from end to end in one colour has a border', type(r) is not T.Stroke)
    if type(r) is not T.Stroke: c.ensures('of this colour', r.color == at(src, j).color)


class Fil:
    """a fill shape"""
    _pyvc_stub = True
schema('Fil', bbox='rect', color='int')
INSIDE = ufun('contained', 'bool')


@contract('C05', TS + 'CellStructure.parse_shading', n=0, loops={0: Loop(inv=lambda L: [
    ('no fill covers the cell so far', forall(0, L.k_, lambda j: Not(INSIDE(at(L.seq_, j)))))])},
    stubs={'common.Element:Element.update_bbox': lambda ctx: lambda self, b: ctx.target(self, b)})
def fill(c):
    T = c.mod('table.TableStructure')
    b = c.rect('merged', nonempty=True)
    w = [c.real(n, 0, 12) for n in ('top', 'bottom', 'left', 'right')]
    c.boxes = []
    def target(self, box): c.boxes.append(box); return self
    c.target = target
    fills = c.list('fills', ('obj', Fil2))
    src, n = fills.copy(), Len(fills)
    s = c.raw(T.CellStructure, merged_bbox=b, bbox=b, borders=tuple(Rec(width=v) for v in w), shading=None, merged_cells=(1, 1))
    c.call(s.parse_shading, fills)
    c.ensures('the inner region of the cell is looked at', len(c.boxes) == 1 and And(eq(c.boxes[0][0], b.x0 + w[2] / 2), eq(c.boxes[0][1], b.y0 + w[0] / 2), eq(c.boxes[0][2], b.x1 - w[3] / 2), eq(c.boxes[0][3], b.y1 - w[1] / 2)))
    if s.shading is None: c.ensures('no shading only if no fill covers the cell', forall(0, n, lambda j: Not(INSIDE(at(src, j)))))
    else: c.ensures('the shading is a fill covering the cell', And(INSIDE(s.shading), exists(0, n, lambda j: same(at(src, j), s.shading))))


class Fil2(Fil):
    def contains(self, e, threshold=1.0): return INSIDE(self)
schema('Fil2', bbox='rect', color='int')


# ------------------------------------------------ the cell written
class TcPr(Props):
    def first_child_found_in(self, *tags):
        for e in self.els:
            if e.tag in [W + t[2:] for t in tags]: return e


class Tc(El):
    def __init__(self): self.props = TcPr()
    def clear_content(self): self.cleared = True


def attrs(e): return {k: e.get(k) for k in e.keys()}


@contract('C05', 'common.docx:set_cell_border', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def cell_border(c):
    tc = Tc()
    sides = ['top', 'end', 'bottom', 'start']
    have = [k for k in sides if c.choice(k, [True, False])]
    size, color = {}, {}
    for k in have: size[k], color[k] = c.real(f'sz {k}', 0.1, 100), c.choice(f'color {k}', ['#FF0000', '#00000A'])
    again = c.choice('set before', [True, False])
    kw = lambda: {k: {'sz': size[k], 'val': 'single', 'color': color[k]} for k in have}
    f = c.mod('common.docx').set_cell_border
    if again: f(Rec(_tc=tc), **kw())
    c.call(f, Rec(_tc=tc), **kw())
    c.ensures('one group of borders', len(tc.props.els) == 1 and tc.props.els[0].tag == W + 'tcBorders')
    bs = {e.tag: e for e in tc.props.els[0]}
    c.ensures('exactly the borders given, each once', len(tc.props.els[0]) == len(bs) and set(bs) == {W + k for k in have})
    for k in have:
        e = bs[W + k]
        c.ensures(f'{k}: width, style and colour given', And(eq(attr(e, 'sz'), size[k]), e.get(W + 'val') == 'single' and e.get(W + 'color') == color[k]))


@contract(['C05', 'C14'], 'common.docx:set_cell_shading', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def cell_shading(c):
    tc = Tc()
    v = c.int('color', 0, 2 ** 24 - 1)
    c.call(c.mod('common.docx').set_cell_shading, Rec(_tc=tc), v)
    c.ensures('one shading', len(tc.props.els) == 1 and tc.props.els[0].tag == W + 'shd')
    c.ensures('of this colour', eq(digits(tc.props.els[0].get(W + 'fill')), v))


@contract('C05', 'common.docx:set_cell_margins', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def cell_margins(c):
    tc = Tc()
    a, b = c.int('start', 0, 500), c.int('end', 0, 500)
    c.call(c.mod('common.docx').set_cell_margins, Rec(_tc=tc), start=a, end=b)
    c.ensures('one group of margins', len(tc.props.els) == 1 and tc.props.els[0].tag == W + 'tcMar')
    es = {e.tag: e for e in tc.props.els[0]}
    c.ensures('of the given sides', set(es) == {W + 'start', W + 'end'})
    c.ensures('of the given widths', And(eq(attr(es[W + 'start'], 'w'), a), eq(attr(es[W + 'end'], 'w'), b)))


@contract('C05', 'common.docx:indent_table', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def indent(c):
    pr = Props()
    class E:
        _pyvc_stub = True
        def xpath(self, p): return [pr] if p == 'w:tblPr' else []
    v = c.real('indent')
    c.call(c.mod('common.docx').indent_table, Rec(_element=E()), v)
    c.ensures('one indent', len(pr.els) == 1 and pr.els[0].tag == W + 'tblInd' and pr.els[0].get(W + 'type') == 'dxa')
    c.ensures('twenty units per point', eq(attr(pr.els[0], 'w'), 20 * v))


class Grid:
    """cells of the python-docx table, by row and column"""
    _pyvc_stub = True
    def __init__(self): self.log = []
    def cell(self, i, j): return TheCell(self, i, j)


class TheCell:
    _pyvc_stub = True
    def __init__(self, g, i, j): self.g, self.i, self.j, self._element = g, i, j, Tc()
    def merge(self, o): self.g.log.append(('merge', self.i, self.j, o.i, o.j))


def bordered(ctx):
    def stub(cell, **kw):
        ctx.check(kw)
        ctx.touched.add(cell.i, cell.j)
    return stub


def log(name):
    def factory(ctx):
        def stub(cell, *a, **k): ctx.log.append((name, cell.i, cell.j, a, k))
        return stub
    return factory


def every(G, i0, i1, j0, j1):
    return forall(i0, i1, lambda i: forall(j0, j1, lambda j: G.has(i, j)))


def only(G, i0, i1, j0, j1):
    import z3
    from pyvc.core import Num, mkB, tobool, S
    u, v = z3.Ints('u!cell v!cell')
    S.placeholders += [u, v]
    try: b = tobool(Implies(G.has(Num(u), Num(v)), And(Num(u) >= i0, Num(u) < i1, Num(v) >= j0, Num(v) < j1)))
    finally: del S.placeholders[-2:]
    return mkB(z3.ForAll([u, v], b))


def rows_done(L):
    G = ghost('done')
    return [('cells of the rows in front have the borders', every(G, L.i, L.i + L.k_, L.j, L.j + L.n_col)),
            ('no other cell', only(G, L.i, L.i + L.n_row, L.j, L.j + L.n_col))]


def cols_done(L):
    G = ghost('done')
    return [('cells of the rows in front have the borders', every(G, L.i, L.m, L.j, L.j + L.n_col)),
            ('cells in front have the borders', forall(L.j, L.j + L.k_, lambda n: G.has(L.m, n))),
            ('no other cell', only(G, L.i, L.i + L.n_row, L.j, L.j + L.n_col))]


@contract('C05', 'table.Cell:Cell._set_style', n=0, loops={1: Loop(inv=rows_done), 2: Loop(inv=cols_done)},
    stubs={'common.docx:set_cell_border': bordered, 'common.docx:set_cell_shading': log('shading'), 'common.docx:set_cell_margins': log('margins'), 'common.docx:set_vertical_cell_direction': log('vertical')})
def cell_style(c):
    sides = ('top', 'end', 'bottom', 'start')
    width = [c.real(f'width {s}', 0, 12) for s in sides]
    color = [c.int(f'color {s}', 0, 2 ** 24 - 1) for s in sides]
    bg = c.int('bg', 0, 2 ** 24 - 1) if c.choice('shaded', [True, False]) else None
    vert = c.choice('vertical', [True, False])
    i, j, nr, nc = c.int('i', 0), c.int('j', 0), c.int('rows', 1), c.int('columns', 1)
    c.log, c.touched = [], ghost('done', pairset('done'))
    c.requires(only(c.touched, 0, 0, 0, 0))
    def check(kw):
        for s, w, v in zip(sides, width, color):
            c.ensures(f'{s} border exactly if it has a width', Iff(s in kw, w != 0))
            if s in kw:
                c.ensures(f'{s}: eight units per point', eq(kw[s]['sz'], 8 * w) if not isinstance(kw[s]['sz'], str) else False)
                c.ensures(f'{s}: a single line of the colour', kw[s]['val'] == 'single' and eq(digits(kw[s]['color'].lstrip('#')), v))
    c.check = check
    s = c.raw(c.mod('table.Cell').Cell, border_width=tuple(width), border_color=tuple(color), bg_color=bg, merged_cells=(nr, nc), bbox=c.rect('bbox'),
              layout=Rec(blocks=Rec(is_vertical_text=vert)))
    c.call(s._set_style, Grid(), (i, j))
    c.ensures('every cell of the range has the borders', every(c.touched, i, i + nr, j, j + nc))
    c.ensures('no other cell', only(c.touched, i, i + nr, j, j + nc))
    ev = {e[0]: e for e in c.log}
    c.ensures('each style at most once', len(ev) == len(c.log))
    for e in c.log: c.ensures(f'{e[0]} of this cell', And(eq(e[1], i), eq(e[2], j)))
    c.ensures('shaded exactly if it has a colour', ('shading' in ev) == (bg is not None))
    if bg is not None and 'shading' in ev: c.ensures('in this colour', eq(ev['shading'][3][0], bg))
    c.ensures('no margin left and right', 'margins' in ev and ev['margins'][4] == {'start': 0, 'end': 0})
    c.ensures('turned exactly if its text is', ('vertical' in ev) == vert)


# ------------------------------------------------ tables, rows and cells written
@contract(['C05', 'C06'], 'table.Cell:Cell.make_docx', n=0, stubs={'table.Cell:Cell._set_style': lambda ctx: lambda self, t, ij: ctx.log.append(('style', ij))})
def write_cell(c):
    c.log = []
    class Content:
        _pyvc_stub = True
        def __init__(self, some): self.some = some
        def __bool__(self): return self.some
        def make_docx(self, cell): c.log.append(('content', cell.i, cell.j, getattr(cell._element, 'cleared', False)))
    some, present = c.choice('content', [True, False]), c.choice('present', [True, False])
    b = c.rect('bbox', nonempty=True)
    i, j, nr, nc = c.int('i', 0), c.int('j', 0), c.int('rows', 1), c.int('columns', 1)
    s = c.raw(c.mod('table.Cell').Cell, bbox=b if present else c.mkrect(0, 0, 0, 0), merged_cells=(nr, nc), layout=Rec(blocks=Content(some)))
    g = TheTable(c.log)
    c.call(s.make_docx, g, (i, j))
    ev = {}
    for e in c.log: ev.setdefault(e[0], []).append(e)
    c.ensures('styled once', len(ev['style']) == 1 and And(eq(ev['style'][0][1][0], i), eq(ev['style'][0][1][1], j)))
    if not present:
        c.ensures('nothing else for a merged cell', set(ev) == {'style'})
        return
    ms = ev.get('merge', [])
    if ms: c.ensures('merged once, over its range', len(ms) == 1 and And(*[eq(a, b) for a, b in zip(ms[0][1:], (i, j, i + nr - 1, j + nc - 1))]))
    else: c.ensures('not merged only if the range is one lattice', And(nr == 1, nc == 1))
    w = ev.get('width', [])
    c.ensures('as wide as the range', len(w) == 1 and And(eq(w[0][1], i), eq(w[0][2], j), w[0][3] / 12700 <= b.x1 - b.x0, b.x1 - b.x0 < w[0][3] / 12700 + 0.001))
    k = ev.get('content', [])
    if some: c.ensures('its contents once, in place of the empty paragraph', len(k) == 1 and And(eq(k[0][1], i), eq(k[0][2], j)) and k[0][3] is True)
    else: c.ensures('no contents', k == [])


class TheTable(Grid):
    _pyvc_stub = True
    def __init__(self, log): self.log, self.made = log, []
    def cell(self, i, j):
        for x in self.made:
            if x.i is i and x.j is j: return x
        x = WideCell(self, i, j)
        self.made.append(x)
        return x


class WideCell(TheCell):
    def __setattr__(self, n, v):
        if n == 'width': self.g.log.append(('width', self.i, self.j, v))
        object.__setattr__(self, n, v)


class Many:
    """rows or columns of a python-docx table"""
    _pyvc_stub = True
    def __init__(self, n, get): self.n, self.get_ = n, get
    def vlen(self): return self.n
    def __getitem__(self, i): return self.get_(i)


def nth(name):
    def factory(ctx):
        def stub(self, *a): ctx.hit(self, *a)
        return stub
    return factory


schema('Cell', id='int')
schema('Row', id='int')


@contract('C05', 'table.Row:Row.make_docx', n=0, stubs={'table.Cell:Cell.make_docx': nth('cell')}, loops={0: Loop(inv=lambda L: [
    ('a column after the other', eq(Len(ghost('seen')), L.k_)), ('in order', forall(0, L.k_, lambda q: at(ghost('seen'), q) == q))], types={'seen': 'int'})})
def write_row(c):
    cells = c.list('cells', ('obj', 'table.Cell:Cell'))
    src, n = cells.copy(), Len(cells)
    seen = ghost('seen', c.vlist([]))
    h, idx = c.real('height', 0), c.int('row', 0)
    R = c.mod('table.Row')
    row = c.raw(R.Row, height=h, _cells=c.raw(R.Cells, _instances=cells, bbox=c.rect('b'), _parent=None))
    docx_row = Rec()
    t = Rec(rows=Many(idx + 1, lambda i: docx_row if bool(i == idx) else Rec()), columns=Many(n, None))
    def hit(cell, table, ij):
        c.ensures('the cell of this column', And(same(cell, at(src, ij[1])), eq(ij[0], idx)))
        seen.append(ij[1])
    c.hit = hit
    c.call(row.make_docx, t, idx)
    c.ensures('every cell is written', eq(Len(seen), n))
    c.ensures('once, in order', forall(0, n, lambda q: at(seen, q) == q))
    c.ensures('the row is exactly this high', docx_row.height_rule == R.WD_ROW_HEIGHT.EXACTLY and And(docx_row.height / 12700 <= h, h < docx_row.height / 12700 + 0.001))


@contract('C05', 'table.TableBlock:TableBlock.make_docx', n=0, stubs={'table.Row:Row.make_docx': nth('row'), 'common.docx:indent_table': lambda ctx: lambda t, v: ctx.log.append(v)}, loops={0: Loop(inv=lambda L: [
    ('a row after the other', eq(Len(ghost('seen')), L.k_)), ('in order', forall(0, L.k_, lambda q: at(ghost('seen'), q) == q))], types={'seen': 'int'})})
def write_table(c):
    rows = c.list('rows', ('obj', 'table.Row:Row'))
    src, n = rows.copy(), Len(rows)
    seen = ghost('seen', c.vlist([]))
    c.log = []
    T = c.mod('table.TableBlock')
    left = c.real('left space')
    b = c.raw(T.TableBlock, left_space=left, bbox=c.rect('b'), _parent=None, _rows=c.raw(T.Rows, _instances=rows, bbox=c.rect('b2'), _parent=None))
    def hit(row, table, i):
        c.ensures('the row of this index', same(row, at(src, i)))
        seen.append(i)
    c.hit = hit
    c.call(b.make_docx, Rec(rows=Many(n, None)))
    c.ensures('every row is written', eq(Len(seen), n))
    c.ensures('once, in order', forall(0, n, lambda q: at(seen, q) == q))
    c.ensures('indented by its left space', len(c.log) == 1 and eq(c.log[0], left))


# ------------------------------------------------ the structure turned into a table
schema('CellStructure', bbox='rect', merged_bbox='rect', merged_cells=('tuple', 'int', 'int'), borders=('tuple', ('obj', Seg), ('obj', Seg), ('obj', Seg), ('obj', Seg)), shading=('opt', ('obj', Fil2)))


class NewRow:
    _pyvc_stub = True
    def __init__(self): self.n, self.height = 0, None
    def append(self, cell): ghost('ctx').cell_added(self, cell); self.n += 1


class NewTable:
    _pyvc_stub = True
    def __init__(self): self.n = 0; ghost('table', self)
    def append(self, row): ghost('ctx').row_added(self, row); self.n += 1
    def __bool__(self): return ghost('ctx').some


class NewCell:
    _pyvc_stub = True
    def __init__(self, raw=None): self.raw, self.box = raw, None
    def update_bbox(self, b): self.box = b; return self


def cells_ok(L): return [('a cell for every lattice so far', eq(L.row.n, L.k_)), ('this row', eq(ghost('table').n, L.pre_.table.n))]


@contract(['C05', 'C06'], TS + 'TableStructure.to_table_block', n=0, loops={
        0: Loop(inv=lambda L: [('a row for every row so far', eq(L.table.n, L.k_))]),
        1: Loop(inv=lambda L: [('a cell for every lattice so far', eq(L.row.n, L.k_)), ('rows so far', eq(L.table.n, ghost('row index')(L)))])},
    stubs={'table.TableStructure:Row': lambda ctx: NewRow, 'table.TableStructure:Cell': lambda ctx: NewCell, 'table.TableStructure:TableBlock': lambda ctx: NewTable,
           TS + 'TableStructure._finalize_strokes_fills': lambda ctx: lambda self: ctx.log.append('types')})
def build(c):
    ghost('ctx', c)
    ghost('row index', lambda L: L.pre_.table.n)
    c.log = []
    T = c.mod('table.TableStructure')
    cells = c.list('cells', ('list', ('obj', TS + 'CellStructure')))
    c.requires(forall(0, Len(cells), lambda i: Len(at(cells, i)) > 0))
    n = Len(cells)
    c.some = c.choice('some', [True, False])
    def cell_added(row, cell):
        i, j = ghost('table').n, row.n
        c.ensures('in this table', And(i < n, j < Len(at(cells, i))))
        s = at(at(cells, i), j)
        a, b = s.merged_cells
        if cell.raw is None:
            c.ensures('empty cells only where merged into another', Or(a == 0, b == 0))
            return
        r = cell.raw
        t, u, v, w = s.borders
        c.ensures('range', And(eq(r['merged_cells'][0], a), eq(r['merged_cells'][1], b)))
        c.ensures('box of the range', And(*[eq(p, q) for p, q in zip(cell.box, s.merged_bbox)]))
        c.ensures('top, right, bottom and left widths', And(*[eq(p, q) for p, q in zip(r['border_width'], (t.width, w.width, u.width, v.width))]))
        c.ensures('top, right, bottom and left colours', And(*[eq(p, q) for p, q in zip(r['border_color'], (t.color, w.color, u.color, v.color))]))
        if r['bg_color'] is None: c.ensures('no shading only if there is none', s.shading is None)
        else: c.ensures('colour of the shading', s.shading is not None and eq(r['bg_color'], s.shading.color))
    def row_added(table, row):
        c.ensures('every lattice of the row', eq(row.n, Len(at(cells, table.n))))
        b = at(at(cells, table.n), 0).bbox
        c.ensures('height of the row', eq(row.height, b.y1 - b.y0))
    c.cell_added, c.row_added = cell_added, row_added
    r = c.call(c.raw(T.TableStructure, cells=cells, h_strokes={}, v_strokes={}).to_table_block)
    c.ensures('every row', eq(r.n, n))
    c.ensures('its strokes and fills are used up', c.log == (['types'] if c.some else []))


# ------------------------------------------------ every cell looked at
class Look:
    """ghost: how often the sides and the shading of an arbitrary cell were looked for"""
    _pyvc_stub = True
    def __init__(self): self.sides, self.fills = 0, 0


ROW_, COL_ = ufun('row of the cell', 'int'), ufun('column of the cell', 'int')


def chosen_cell(s): return And(eq(ROW_(s), ghost('cell')[0]), eq(COL_(s), ghost('cell')[1]))


def sides_of(ctx):
    def stub(self, h, v):
        l = ghost('look')
        ctx.ensures('lines of this table', And(h is ghost('strokes')[0], v is ghost('strokes')[1]))
        ctx.ensures('after the ranges are known', ghost('merging')[0])
        l.sides = l.sides + Ite(chosen_cell(self), 1, 0)
    return stub


def fills_of(ctx):
    def stub(self, fills):
        l = ghost('look')
        ctx.ensures('areas of this table', fills is ghost('strokes')[2])
        ctx.ensures('after its sides', Implies(chosen_cell(self), l.sides > l.fills))
        l.fills = l.fills + Ite(chosen_cell(self), 1, 0)
    return stub


def once(when):
    l, s = ghost('look'), ghost('cell')[2]
    n = Ite(And(when, Not(Or(eq(s.merged_cells[0], 0), eq(s.merged_cells[1], 0)))), 1, 0)
    return [('sides once, unless it is within another', eq(l.sides, n)), ('shading once, unless it is within another', eq(l.fills, n))]


@contract(['C05', 'C06'], TS + 'TableStructure.parse', n=0, loops={0: Loop(inv=lambda L: once(L.k_ > ghost('cell')[0])),
        1: Loop(inv=lambda L: [(l, Implies(eq(ghost('no')(L.seq_), ghost('cell')[0]), x)) for l, x in once(L.k_ > ghost('cell')[1])] + [
            (l, Implies(ne(ghost('no')(L.seq_), ghost('cell')[0]), x)) for l, x in once(ghost('no')(L.seq_) > ghost('cell')[0])])},
    stubs={TS + 'CellStructure.parse_borders': sides_of, TS + 'CellStructure.parse_shading': fills_of,
           TS + 'TableStructure._check_merging_status': lambda ctx: (lambda self: ghost('merging').__setitem__(0, True))})
def every_cell(c):
    """first the ranges, then sides and shading of every cell that is not within another, once"""
    T = c.mod('table.TableStructure')
    cells = c.list('cells', ('list', ('obj', TS + 'CellStructure')))
    c.requires(forall(0, Len(cells), lambda i: And(Len(at(cells, i)) > 0, forall(0, Len(at(cells, i)), lambda j: And(eq(ROW_(at(at(cells, i), j)), i), eq(COL_(at(at(cells, i), j)), j))))))
    i, j = c.int('row', 0), c.int('column', 0)
    c.requires(i < Len(cells), j < Len(at(cells, i)))
    ghost('no', lambda row: ROW_(at(row, 0)))
    ghost('cell', (i, j, at(at(cells, i), j))); ghost('look', Look()); ghost('merging', [False])
    h, v, f = ghost('strokes', ({}, {}, []))
    t = c.raw(T.TableStructure, cells=cells, h_strokes=h, v_strokes=v)
    r = c.call(t.parse, f)
    c.ensures('the same table', r is t)
    for l, x in once(True): c.ensures(l, x)
