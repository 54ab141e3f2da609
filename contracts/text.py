"""C09: characters and lines are distributed without loss or duplication"""
from pyvc.spec import *

schema('TextBlock', bbox='rect')
schema('Line', bbox='rect', spans=('obj', 'text.Spans:Spans'))
schema('Spans', owner=('obj', 'text.Line:Line'))
schema('Char', bbox='rect', c='str')
RANK = ufun('rank', 'int')          # number of chosen elements before a position


def rank_of(c, n, chosen):
    """ghost: RANK(j) = how many i < j are chosen"""
    c.requires(RANK(0) == 0, forall(0, n, lambda j: eq(RANK(j + 1), RANK(j) + Ite(chosen(j), 1, 0)), lambda k: [RANK_t(k)]))


def RANK_t(k):
    from pyvc.core import mk
    return RANK(mk(k)).t


def filtered(src, out, chosen, k):
    """out = the chosen ones of the first k elements of src, in order, each once"""
    return [('as many as chosen', eq(Len(out), RANK(k))),
            ('ranks grow', forall(0, k, lambda j: And(RANK(j) >= 0, RANK(j) + Ite(chosen(j), 1, 0) <= RANK(k)), lambda q: [RANK_t(q)])),
            ('every chosen element is at its rank', forall(0, k, lambda j: Implies(chosen(j), same(at(out, RANK(j)), at(src, j))), lambda q: [RANK_t(q)]))]


def inside(b, r):
    x, y = (b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2
    return And(r.x0 <= x, x < r.x1, r.y0 <= y, y < r.y1)


@contract('C09', 'common.Element:Element.located_in')
def located_in(c):
    e = c.raw(c.mod('common.Element').Element, bbox=c.rect('b'))
    r, s = c.rect('r'), c.real('cut')
    c.ensures('located in a box iff the centre is', Iff(c.call(e.located_in, r), inside(e.bbox, r)))
    # two boxes sharing an edge
    c.requires(r.x0 < s, s < r.x1)
    a, b = c.mkrect(r.x0, r.y0, s, r.y1), c.mkrect(s, r.y0, r.x1, r.y1)
    u, v = c.call(e.located_in, a), c.call(e.located_in, b)
    c.ensures('located in exactly one of two adjacent boxes', And(Iff(Or(u, v), inside(e.bbox, r)), Not(And(u, v))))


def shallow(ctx):
    """contract of Element.copy: an equal object of its own (deepcopy is trusted)"""
    def stub(self):
        o = self.__class__.__new__(self.__class__)
        for k, v in self.__dict__.items(): o.__dict__[k] = v.copy() if isinstance(v, list) or type(v).__name__ == 'VList' else v
        return o
    return stub


def chosen_(c, chars, r): return lambda j: inside(at(chars, j).bbox, r)


@contract('C09', 'text.TextSpan:TextSpan.intersects', n=0, stubs={'common.Element:Element.copy': shallow}, loops={0: Loop(inv=lambda L: filtered(
    L.seq_, L.span.chars, lambda j: inside(at(L.seq_, j).bbox, L.rect), L.k_))}, assumes=['Element.copy (copy.deepcopy) yields an equal object'])
def span_intersects(c):
    T = c.mod('text.TextSpan').TextSpan
    chars = c.list('chars', ('obj', 'text.Char:Char'))
    r = c.rect('r')
    s = c.raw(T, bbox=c.rect('b'), chars=chars, style=[], color=0, size=10.0, flags=0, _font='Arial', _parent=None)
    n = Len(chars)
    src = chars.copy()
    # the span covers its characters, whose centres are inside of it
    c.requires(forall(0, n, lambda j: inside(at(chars, j).bbox, s.bbox)))
    rank_of(c, n, lambda j: inside(at(src, j).bbox, r))
    if c.choice('induction', [True]):
        c.requires(forall(0, n + 1, lambda j: And(RANK(j) >= 0, RANK(j) <= RANK(n)), lambda q: [RANK_t(q)]))
    o = c.call(s.intersects, r)
    if bool(And(r.x0 <= s.bbox.x0, r.y0 <= s.bbox.y0, r.x1 >= s.bbox.x1, r.y1 >= s.bbox.y1)):
        c.ensures('all characters of a span inside the box', And(eq(Len(o.chars), n), forall(0, n, lambda j: same(at(o.chars, j), at(src, j)))))
        c.ensures('all characters are located in the box', forall(0, n, lambda j: inside(at(src, j).bbox, r)))
    else:
        if bool(Len(o.chars) == 0): c.ensures('no character is located in the box', forall(0, n, lambda j: Not(inside(at(src, j).bbox, r))))
        else:
            for l, x in filtered(src, o.chars, lambda j: inside(at(src, j).bbox, r), n): c.ensures('exactly the characters located in the box, in order: ' + l, x)
    c.ensures('the span itself is not changed', And(eq(Len(s.chars), n), forall(0, n, lambda j: same(at(s.chars, j), at(src, j)))))


# ------------------------------------------------ lines and cells
PART = ufun('part', 'int')             # ghost: id of the part of a span inside the box


def span_part(ctx):
    """contract of Span.intersects: the part of the span located in the box (proved above for text)"""
    def stub(self, rect):
        o = ctx.raw(ctx.mod('text.TextSpan').TextSpan, bbox=ctx.rect('part'), src=self)
        return o
    return stub


@contract('C09', 'text.Line:Line.intersects', n=0, stubs={'common.Element:Element.copy': shallow, 'text.TextSpan:TextSpan.intersects': span_part,
    'image.ImageSpan:ImageSpan.intersects': span_part}, assumes=['Element.copy (copy.deepcopy) yields an equal object'])
def line_intersects(c):
    Line, Spans, T = c.mod('text.Line').Line, c.mod('text.Spans').Spans, c.mod('text.TextSpan').TextSpan
    k = c.choice('spans', [0, 1, 2, 3])
    spans = [c.raw(T, bbox=c.rect(f's{i}', nonempty=True)) for i in range(k)]
    way = c.choice('direction', [[1.0, 0.0], [0.0, -1.0], [0.0, 1.0]])
    l = c.raw(Line, bbox=c.rect('b', nonempty=True), wmode=0, _pid=None, line_break=0, dir=way, _parent=None)
    l.spans = c.raw(Spans, _instances=c.vlist(list(spans)), _parent=l)
    r = c.rect('r')
    o = c.call(l.intersects, r)
    if bool(And(r.x0 <= l.bbox.x0, r.y0 <= l.bbox.y0, r.x1 >= l.bbox.x1, r.y1 >= l.bbox.y1)):
        c.ensures('the whole line', And(eq(Len(o.spans._instances), k)))
    else:
        out = o.spans._instances
        src = [getattr(out[i], 'src', None) for i in range(len(out))]
        want = [s for s in src if any(s is x for x in spans)]
        c.ensures('parts of spans only', len(want) == len(src))
        order = [[j for j in range(k) if spans[j] is s][0] for s in want]
        c.ensures('at most one part per span, in order', order == sorted(set(order)))
        c.ensures('same direction', eq(o.dir[0], way[0]) and eq(o.dir[1], way[1]))


@contract('C09', 'table.TableBlock:TableBlock._region')
def region(c):
    """the regions of two adjacent cells share no point and leave no gap; the outer cells reach around the block"""
    TB, Cell = c.mod('table.TableBlock').TableBlock, c.mod('table.Cell').Cell
    t, s, b = c.rect('table', nonempty=True), c.real('s'), c.rect('block', nonempty=True)
    y0, y1 = c.real('y0'), c.real('y1')
    tr = c.choice('transposed', [False, True])
    lo, hi = (t.y0, t.y1) if tr else (t.x0, t.x1)
    a, z = c.choice('a', [lo, c.real('a')]), c.choice('z', [hi, c.real('z')])
    c.requires(lo <= a, a < s, s < z, z <= hi, y0 < y1)
    mk = (lambda p, q: c.mkrect(y0, p, y1, q)) if tr else (lambda p, q: c.mkrect(p, y0, q, y1))
    T = c.raw(TB, bbox=t)
    u = c.call(T._region, c.raw(Cell, bbox=mk(a, s)), b)
    v = c.call(T._region, c.raw(Cell, bbox=mk(s, z)), b)
    i = 1 if tr else 0
    c.ensures('no gap and no overlap between neighbours', And(eq(u[i + 2], s), eq(v[i], s)))
    c.ensures('same extent across', And(eq(u[1 - i], v[1 - i]), eq(u[3 - i], v[3 - i])))
    lob, hib = (b.y0, b.y1) if tr else (b.x0, b.x1)
    c.ensures('cell at the first border reaches around the block', Implies(eq(a, lo), And(u[i] < lob, u[i] <= a)))
    c.ensures('cell at the last border reaches around the block', Implies(eq(z, hi), And(v[i + 2] > hib, v[i + 2] >= z)))
    c.ensures('inner borders stay', And(Implies(a > lo, eq(u[i], a)), Implies(z < hi, eq(v[i + 2], z))))


def holds(ctx):
    # any answer (Element.contains is under contract in C15)
    def stub(self, block, threshold=1.0): return ctx.bool('contained')
    return stub
def area(ctx):
    def stub(self, block): return ctx.real('area', 0)
    return stub
def log_block(ctx):
    def stub(self, block): self.log.append(('block', block, None))
    return stub
def log_lines(ctx):
    def stub(self, block, region): self.log.append(('lines', block, region))
    return stub


@contract('C09', 'table.TableBlock:TableBlock.assign_blocks', n=0, stubs={'table.Cell:Cell.assign_block': log_block, 'table.Cell:Cell.assign_lines': log_lines,
    'common.Element:Element.contains': holds, 'table.Cell:Cell.intersection_area': area}, max_paths=20000)
def assign_blocks(c):
    """a block goes as a whole to one cell, or (text only) as its parts to all the cells, whose regions tile the plane around it"""
    TB, Cell = c.mod('table.TableBlock').TableBlock, c.mod('table.Cell').Cell
    Row, Rows = c.mod('table.Row').Row, c.mod('table.Rows').Rows
    nr, nc = c.choice('grid', [(1, 1), (1, 2), (2, 2)])
    xs, ys = [c.real(f'x{i}') for i in range(nc + 1)], [c.real(f'y{i}') for i in range(nr + 1)]
    for l in (xs, ys):
        for p, q in zip(l, l[1:]): c.requires(p < q)
    rows, cells = [], []
    for i in range(nr):
        row = []
        for j in range(nc):
            o = c.raw(Cell, bbox=c.mkrect(xs[j], ys[i], xs[j + 1], ys[i + 1]), log=[])
            row.append(o); cells.append(o)
        rows.append(c.raw(Row, _cells=row, bbox=None))
    t = c.raw(TB, bbox=c.mkrect(xs[0], ys[0], xs[-1], ys[-1]))
    t._rows = c.raw(Rows, _instances=c.vlist(rows), _parent=t)
    kind = c.choice('kind', ['text', 'table'])
    K = c.mod('text.TextBlock').TextBlock if kind == 'text' else TB
    b = c.raw(K, bbox=c.rect('block', nonempty=True), _type=c.mod('common.share').BlockType.TEXT if kind == 'text' else c.mod('common.share').BlockType.LATTICE_TABLE)
    c.call(t.assign_blocks, c.vlist([b]))
    logs = [e for o in cells for e in o.log]
    whole = [e for e in logs if e[0] == 'block']
    if whole: c.ensures('the whole block is in exactly one cell', len(logs) == 1 and whole[0][1] is b)
    else:
        c.ensures('only text is split', kind == 'text')
        c.ensures('every cell gets its part once', [len(o.log) for o in cells] == [1] * len(cells))
        px, py = c.real('px'), c.real('py')
        c.requires(b.bbox.x0 <= px, px <= b.bbox.x1, b.bbox.y0 <= py, py <= b.bbox.y1)
        hit = [And(r.x0 <= px, px < r.x1, r.y0 <= py, py < r.y1) for r in (e[2] for e in logs)]
        c.ensures('every point of the block is in a region', Or(*hit))
        c.ensures('no point is in two regions', And(*[Not(And(hit[i], hit[j])) for i in range(len(hit)) for j in range(i)]) if len(hit) > 1 else True)


@contract('C09', 'common.Collection:Collection.split_with_intersection', n=60, loops={0: Loop(inv=lambda L: partition(
    L.seq_, [L.intersections, L.no_intersections], L.k_, ghost('pos')), types={'intersections': ('obj', 'text.TextBlock:TextBlock'), 'no_intersections': ('obj', 'text.TextBlock:TextBlock')})})
def split_with_intersection(c):
    """every instance is in exactly one of the two groups, in order"""
    Group, TextBlock = c.mod('common.Collection').Collection, c.mod('text.TextBlock').TextBlock
    r, th = c.rect('r', nonempty=True), c.real('threshold', 0.01, 1)
    if c.symbolic:
        l = c.list('blocks', ('obj', 'text.TextBlock:TextBlock'))
        c.requires(forall(0, Len(l), lambda j: And(at(l, j).bbox.x0 < at(l, j).bbox.x1, at(l, j).bbox.y0 < at(l, j).bbox.y1)))
        ghost('pos', positions(l))
    else:
        l = [c.raw(TextBlock, bbox=b) for b in c.list('bboxes', 'rect') if b.getArea() > 0]
    src = l.copy()
    b = c.raw(Group, _instances=l, _parent=None)
    i, o = c.call(b.split_with_intersection, r, th)
    if c.symbolic:
        for label, x in partition(src, [i._instances, o._instances], Len(src), ghost('pos')): c.ensures(label, x)
    else: c.ensures('every instance is in exactly one of the groups', sorted(map(id, list(i) + list(o))) == sorted(map(id, l)))


# ------------------------------------------------ joining lines
LINE = ('obj', 'text.Line:Line')
OV, IGN = ufun('overlaps', 'bool'), ufun('ignored_before', 'int')


class Joined:
    """ghost: the lines whose spans went to another line, in order"""
    _pyvc_stub = True
    def __init__(self, absorbed): self.absorbed = absorbed


def overlap(ctx):
    def stub(self, e, threshold=0.95): return OV(self, e)
    return stub
def same_row(ctx):
    f = ufun('row', 'bool')
    def stub(self, e): return f(self, e)
    return stub
def absorb(ctx):
    def stub(self, span_or_list):
        ghost('joined').absorbed.append(span_or_list.owner)
    return stub
def nosort(ctx):
    return lambda self: self
def became(ctx):
    def stub(self, elements=None): ghost('result', elements)
    return stub


def joining(L, k, extra=()):
    pos, src = ghost('pos'), L.self._instances
    outs = [L.lines._instances, ghost('joined').absorbed, L.candidates]
    r = [('no line is lost', eq(sum([Len(o) for o in outs[1:]], Len(outs[0])) + IGN(k), k))]
    for label, x in partition(src, outs, k, pos)[1:]:
        r.append((label, x))
    r.append(('candidates come last', forall(0, Len(outs[2]), lambda q: And(*[forall(0, Len(o), lambda p: pos(at(o, p)) < pos(at(outs[2], q))) for o in outs[:2]]))))
    for n, o in enumerate(outs):
        r.append((f'group {n}: not the overlapping ones', forall(0, Len(o), lambda p: Or(eq(pos(at(o, p)), 0), Not(OV(at(o, p), at(src, pos(at(o, p)) - 1)))))))
    return r


def appended(out, pre, seq, k):
    return [('grows', eq(Len(out), Len(pre) + k)), ('keeps', forall(0, Len(pre), lambda p: same(at(out, p), at(pre, p)))),
            ('appends', forall(Len(pre), Len(pre) + k, lambda p: same(at(out, p), at(seq, p - Len(pre)))))]


@contract('C09', 'text.Lines:Lines.join', n=0, stubs={'text.Lines:Lines.sort': nosort, 'common.Element:Element.get_main_bbox': overlap,
    'common.Element:Element.in_same_row': same_row, 'text.Line:Line.add': absorb, 'text.Line:Line.text': lambda ctx: lambda self: '', 'common.Collection:Collection.reset': became}, loops={
    0: Loop(inv=lambda L: joining(L, L.k_ + 1), types={'_instances': LINE, 'candidates': ('list', LINE), 'absorbed': LINE}),
    1: Loop(inv=lambda L: [(f'released: {a}', b) for a, b in appended(L.lines._instances, L.pre_.lines._instances, L.seq_, L.k_)], types={'_instances': LINE}),
    'text.Lines:Lines.join.get_merged_line#0': Loop(inv=lambda L: [(f'merged: {a}', b) for a, b in appended(ghost('joined').absorbed, L.pre_.joined.absorbed, L.seq_, L.k_)], types={'absorbed': LINE}),
    })
def join(c):
    Lines, Line = c.mod('text.Lines').Lines, c.mod('text.Line').Line
    l = c.list('lines', LINE)
    c.requires(Len(l) > 0, forall(0, Len(l), lambda j: And(at(l, j).bbox.x0 < at(l, j).bbox.x1, at(l, j).bbox.y0 < at(l, j).bbox.y1)))
    pos = positions(l); ghost('pos', pos)
    c.requires(forall(0, Len(l), lambda j: same(at(l, j).spans.owner, at(l, j))))
    c.requires(IGN(1) == 0, forall(1, Len(l), lambda j: eq(IGN(j + 1), IGN(j) + Ite(OV(at(l, j), at(l, j - 1)), 1, 0))))
    g = Joined(c.vlist([])); ghost('joined', g)
    x = c.raw(Lines, _instances=l, _parent=None)
    c.call(x.join, c.real('overlap', 0), c.real('merging', 0))
    L = type('End', (), dict(self=x, lines=ghost('result'), candidates=c.vlist([])))
    for label, y in joining(L, Len(l)): c.ensures(label, y)
