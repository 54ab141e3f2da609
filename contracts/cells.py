"""C05, C08, C09: what table cells are given, and what of them is told; lattices; links of a page"""
from pyvc.spec import *
from contracts.restore import upright


# ------------------------------------------------ shapes and lines of a cell
@contract(['C05', 'C08'], 'table.Cell:Cell.assign_shapes', n=0, within='up to 2 lines, areas and links')
def cell_shapes(c):
    """a cell gets every shape that reaches into it, whole, in order, before it looks what they are"""
    S, M = c.mod('shape.Shape'), c.mod('table.Cell').Cell
    got = []
    class Shapes:
        _pyvc_stub = True
        def append(self, s): got.append(s)
        def extend(self, l): got.extend(l)
        def detect_initial_categories(self): got.append('looked at')
    class L:
        _pyvc_stub = True
        shapes = Shapes()
    shapes = [c.raw(c.choice(f'kind {k}', [S.Stroke, S.Fill, S.Hyperlink]), bbox=c.rect(f'shape {k}')) for k in range(c.choice('shapes', [0, 1, 2]))]
    boxes = [list(s.bbox) for s in shapes]
    cell = c.raw(M, bbox=c.rect('cell', nonempty=True), layout=L())
    c.call(cell.assign_shapes, list(shapes))
    b = cell.bbox
    c.ensures('looked at once, with all', [g for g in got if g == 'looked at'] == got[-1:] and len(got) > 0)
    mine = got[:-1]
    c.ensures('each once, in order', [id(g) for g in mine] == [id(s) for s in shapes if any(s is g for g in mine)])
    for s, o in zip(shapes, boxes):
        c.ensures('whole', And(*[eq(p, q) for p, q in zip(s.bbox, o)]))
        reaches = And(o[0] <= o[2], o[1] <= o[3], Max(o[0], b.x0) < Min(o[2], b.x1), Max(o[1], b.y0) < Min(o[3], b.y1))
        thin = And(b.x0 < o[0], o[2] < b.x1, b.y0 < o[1], o[3] < b.y1, Or(And(o[0] < o[2], eq(o[1], o[3])), And(o[1] < o[3], eq(o[0], o[2]))))
        away = Or(o[0] > b.x1, o[2] < b.x0, o[1] > b.y1, o[3] < b.y0)
        has = any(s is g for g in mine)
        c.ensures('a shape that reaches into the cell is in it', Implies(Or(reaches, thin), has))
        c.ensures('a shape elsewhere is not', Implies(And(o[0] < o[2], o[1] < o[3], away), not has))


def part_of(ctx):
    def stub(self, rect):
        ctx.log.append((self, rect))
        r = ctx.raw(ctx.mod('text.Line').Line, bbox=self.bbox, src=self, _pid=None)
        return r
    return stub


@contract(['C05', 'C09'], 'table.Cell:Cell.assign_lines', n=0, stubs={'text.Line:Line.intersects': part_of, 'common.Element:Element.union_bbox': lambda ctx: (lambda self, e: self)}, within='up to 3 lines')
def cell_lines(c):
    """a cell gets the part of every line that is in its region, in order, as one paragraph"""
    T, L, M = c.mod('text.TextBlock').TextBlock, c.mod('text.Line').Line, c.mod('table.Cell').Cell
    upright(c)
    c.log, got = [], []
    class Blocks:
        _pyvc_stub = True
        def append(self, b): got.append(b)
    class Y:
        _pyvc_stub = True
        blocks = Blocks()
    t = c.call(T)
    lines = [c.raw(L, bbox=c.rect(f'line {k}', nonempty=True), _pid=None) for k in range(c.choice('lines', [0, 1, 2, 3]))]
    for l in lines: t.lines._instances.append(l)
    cell, region = c.raw(M, bbox=c.rect('cell', nonempty=True), layout=Y()), c.rect('region', nonempty=True)
    c.call(cell.assign_lines, t, region)
    c.ensures('one paragraph', len(got) == 1 and isinstance(got[0], T) and got[0] is not t)
    c.ensures('of the parts in the region', all(r is region for _, r in c.log))
    c.ensures('one of every line, in order', [id(l.src) for l in got[0].lines] == [id(l) for l in lines])
    c.ensures('the paragraph itself stays', [id(l) for l in t.lines] == [id(l) for l in lines])


# ------------------------------------------------ texts of tables
@contract('C05', 'table.TableBlock:TableBlock.text', n=0, within='up to 2 rows and columns of up to 2 blocks')
def table_text(c):
    """extracting a table tells the texts of each cell, in order, and nothing for cells covered by a merged one"""
    T, TB, Cell = c.mod('text.TextBlock').TextBlock, c.mod('table.TableBlock').TableBlock, c.mod('table.Cell').Cell
    Row, Rows = c.mod('table.Row').Row, c.mod('table.Rows').Rows
    class B:
        _pyvc_stub = True
        def __init__(self, t): self.text = t
        def is_text_block(self): return True
    class Y:
        _pyvc_stub = True
        def __init__(self, bs): self.blocks = bs
    grid, rows = c.choice('grid', [(1, 1), (1, 2), (2, 2)]), []
    want = []
    for i in range(grid[0]):
        cells, w = [], []
        for j in range(grid[1]):
            texts = c.choice(f'cell {i} {j}', [None, [], ['a'], ['b c', 'd']] if (i, j) == (0, 0) else [None, ['e']])
            cells.append(c.raw(Cell, bbox=c.mkrect(10 * j, 10 * i, 10 * j + (10 if texts is not None else 0), 10 * i + 10) if texts is not None else c.mkrect(0, 0, 0, 0), layout=Y([B(t) for t in texts or []])))
            w.append(texts)
        rows.append(c.raw(Row, _cells=cells, bbox=None)); want.append(w)
    t = c.raw(TB, bbox=c.mkrect(0, 0, 100, 100))
    t._rows = c.raw(Rows, _instances=c.vlist(rows), _parent=t)
    out = [list(r) for r in list(c.call(lambda: t.text))]
    c.ensures('the rows and columns of the table', [len(r) for r in out] == [grid[1]] * grid[0])
    for r, w in zip(out, want):
        for v, x in zip(r, w): c.ensures('the texts of the cell', v is None if x is None else v is not None and v.split() == ' '.join(x).split())


# ------------------------------------------------ lattices
class Keys(dict):
    """ghost: lines by their (unsorted) coordinates"""


@contract(['C05', 'C06'], 'table.TableStructure:TableStructure._init_cells', n=0, within='up to 3 coordinates in each direction, in any order')
def lattice(c):
    """the cells are the spaces between neighbouring lines, row by row from the top, from left to right"""
    M = c.mod('table.TableStructure').TableStructure
    def keys(name):
        k = c.choice(f'{name} lines', [2, 3])
        v = [c.real(f'{name}{i}', 0, 1000) for i in range(k)]
        for a, b in zip(v, v[1:]): c.requires(a + 5 < b)
        order = c.choice(f'{name} order', ['up', 'down', 'turned'])
        l = v if order == 'up' else v[::-1] if order == 'down' else v[1:] + v[:1]
        class D:
            _pyvc_stub = True
            def __iter__(self): return iter(l)
            def __len__(self): return len(l)
            def keys(self): return list(l)
        return v, D()
    (ys, h), (xs, w) = keys('y'), keys('x')
    t = c.raw(M, h_strokes=h, v_strokes=w)
    out = [list(r) for r in list(c.call(t._init_cells))]
    c.ensures('rows and columns between the lines', [len(r) for r in out] == [len(xs) - 1] * (len(ys) - 1))
    for i, r in enumerate(out):
        for j, e in enumerate(r):
            c.ensures('every cell is the space between its lines', And(*[eq(p, q) for p, q in zip(e.bbox, (xs[j], ys[i], xs[j + 1], ys[i + 1]))]))


@contract(['C05', 'C08'], 'table.TableStructure:TableStructure._finalize_strokes_fills', n=0, within='2 coordinates of up to 2 lines each way, 2 cells')
def used(c):
    """what is a border or background of a table is no mark of text, the rest stays as it is"""
    S, M, K = c.mod('shape.Shape'), c.mod('table.TableStructure'), c.mod('common.share').RectType
    mk = lambda n, t: c.raw(t, bbox=c.rect(n, nonempty=True), type=K.UNDEFINED)
    lines, fills = {}, [mk('fill 0', S.Fill), mk('fill 1', S.Fill)]
    for d in 'hv': lines[d] = {10.0 * i: [mk(f'{d}{i}{k}', S.Stroke) for k in range(c.choice(f'{d}{i}', [0, 1, 2] if i else [1]))] for i in range(2)}
    shading = [c.choice(f'shading {i}', [None, fills[0]]) for i in range(2)]
    cells = [[c.raw(M.CellStructure, bbox=None, shading=s) for s in shading]]
    t = c.raw(M.TableStructure, h_strokes=lines['h'], v_strokes=lines['v'], cells=cells)
    c.call(t._finalize_strokes_fills)
    c.ensures('lines are borders', all(s.type is K.BORDER for d in lines.values() for l in d.values() for s in l))
    c.ensures('areas of cells are backgrounds, others are not', (fills[0].type is K.SHADING) == any(s is fills[0] for s in shading) and fills[1].type is K.UNDEFINED)


# ------------------------------------------------ links
@contract('C08', 'page.RawPage:RawPage._preprocess_hyperlinks', n=0, within='up to 3 links of 2 kinds')
def page_links(c):
    """every link to an address is read with its area and address, in order; other links are not"""
    P, K = c.mod('page.RawPage').RawPage, c.mod('common.share').RectType
    links = []
    for k in range(c.choice('links', [0, 1, 2, 3])):
        kind = c.choice(f'kind {k}', [1, 2])
        links.append({'kind': kind, 'from': c.rect(f'link {k}'), **({'uri': c.choice(f'address {k}', ['https://a.org', 'mailto:b'])} if kind == 2 else {'page': 1})})
    class Page:
        _pyvc_stub = True
        def getLinks(self): return [dict(l) for l in links]
        get_links = getLinks
    out = list(c.call(P._preprocess_hyperlinks, Page()))
    want = [l for l in links if l['kind'] == 2]
    c.ensures('all links to addresses, once', len(out) == len(want))
    for o, l in zip(out, want):
        c.ensures('with address and kind', o['uri'] == l['uri'] and o['type'] == K.HYPERLINK.value)
        c.ensures('with their area', And(*[eq(p, q) for p, q in zip(o['bbox'], l['from'])]))


from contracts.text import shallow


@contract(['C05', 'C06'], 'table.TableStructure:TableStructure._check_outer_strokes', n=0, stubs={'common.Element:Element.copy': shallow,
    'common.Collection:Collection.sort_in_line_order': lambda ctx: (lambda self: self), 'common.Collection:Collection.sort_in_reading_order': lambda ctx: (lambda self: self)},
    timeout=5, within='up to 2 lines along the side', assumes=['Element.copy (copy.deepcopy) yields an equal object', 'the order of lines, which is sorted afterwards'])
def outer(c):
    """a side of a table without lines, or between its lines, is closed by lines that are not shown; the lines drawn stay"""
    S, M, SS = c.mod('shape.Shape').Stroke, c.mod('table.TableStructure').TableStructure, c.mod('shape.Shapes').Shapes
    upright(c)
    side = c.choice('side', ['top', 'bottom', 'left', 'right'])
    hor, first = side in ('top', 'bottom'), side in ('top', 'left')
    lo, hi = c.real('from', 0, 500), c.real('to', 0, 500)
    c.requires(lo + 20 < hi)
    near, d = 100.0 if first else 400.0, c.choice('distance', [.5, 7])        # the last line, and how far the table goes on
    far = near - d if first else near + d
    width = c.real('max border width', 0, 20)
    mk = lambda a, b, p: c.mkrect(a, p, b, p) if hor else c.mkrect(p, a, p, b)
    drawn, a = [], lo
    for k in range(c.choice('lines', [1, 2] if side in ('top', 'right') else [1])):
        s, e = c.real(f'start {k}', 0, 500), c.real(f'end {k}', 0, 500)
        c.requires(a <= s, s + 1 < e, e <= hi); a = e
        drawn.append(c.raw(S, bbox=mk(s, e, near), start=s, end=e, width=1.0, color=7, _parent=None))
    other = c.raw(S, bbox=mk(lo, hi, 250.0), width=1.0, color=7, _parent=None)
    borders = {near: c.raw(SS, _instances=list(drawn), _parent=None), 250.0: c.raw(SS, _instances=[other], _parent=None)}
    ends = sorted([near, 250.0])
    box = c.mkrect(lo, far if first else 0, hi, 500 if first else far) if hor else c.mkrect(far if first else 0, lo, 500 if first else far, hi)
    c.call(M._check_outer_strokes, c.raw(c.mod('common.Element').Element, bbox=box), borders, side, width)
    c.ensures('the other lines stay', [id(s) for s in borders[250.0]] == [id(other)])
    mine = list(borders[near])
    c.ensures('the lines drawn stay', all(any(m is s for m in mine) for s in drawn) and all(s.width == 1.0 and s.color == 7 for s in drawn))
    new = [s for k, l in borders.items() for s in l if not any(s is d for d in drawn + [other])]
    c.ensures('lines added are not shown', all(s.width == 0 for s in new))
    i, e = (0, 2) if hor else (1, 3)
    c.ensures('lines added do not lie outside', And(*[And(s.bbox[i] >= lo - .1, s.bbox[e] <= hi + .1, eq(s.bbox[1 - i], s.bbox[3 - i])) for s in new]) if new else True)
    if bool(Abs(far - near) > width):
        c.ensures('one line for the whole side', len(new) == 1 and len(mine) == len(drawn) and len(borders) == 3)
        for s in new: c.ensures('at the side, from end to end', And(Abs(s.bbox[1 - i] - far) <= .06, Abs(s.bbox[i] - lo) <= .06, Abs(s.bbox[e] - hi) <= .06))
    else:
        c.ensures('no line elsewhere', len(borders) == 2)
        p = c.real('place', 0, 500)
        c.requires(lo <= p, p <= hi)
        gap = c.mod('common.constants').MINOR_DIST
        at_ = lambda q, s: And(s.bbox[i] - .06 <= q, q <= s.bbox[e] + .06)
        c.ensures('closed everywhere, but for short gaps', Or(*[at_(p, s) for s in mine], *[And(at_(x, s), Abs(x - p) <= gap) for s in mine for x in (s.bbox[i], s.bbox[e])]))
        for s in new: c.ensures('no line added over one drawn', And(*[Or(s.bbox[e] <= d.start + .06, s.bbox[i] >= d.end - .06) for d in drawn]))
