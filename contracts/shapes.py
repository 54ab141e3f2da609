"""C05, C08: lines, areas and links of a page: kept, and looked at as everything they may be"""
from pyvc.spec import *

SHAPE = ('obj', 'shape.Shape:Stroke', 'shape.Shape:Fill', 'shape.Shape:Hyperlink')
NAMES = ('_table_strokes', '_table_fillings', '_text_underlines_strikes', '_text_highlights')
for k in ('Shape', 'Stroke', 'Fill', 'Hyperlink'): schema(k, bbox='rect', kind=('enum', 'common.share:RectType'))


class Part:
    """stand-in of a part of the shapes: how often an arbitrary shape is in it, and how many shapes are"""
    _pyvc_stub = True
    def __init__(self, no, times, size): self.no, self.times, self.size = no, times, size
    def reset(self, elements=()): self.times, self.size = 0, 0; return self
    def append(self, e):
        self.times, self.size = self.times + Ite(eq(ghost('pos')(e), self.no), 1, 0), self.size + 1


def wanted(e, RT, line):
    """in how many of the parts: by the kind recognised, else everything it may be"""
    if line is None: return dict.fromkeys(NAMES, False)
    other = And(Not(eq(e.kind, RT.HYPERLINK)), Not(eq(e.kind, RT.UNDERLINE_OR_STRIKE)), Not(eq(e.kind, RT.SHADING)))
    return {'_table_strokes': And(other, line), '_table_fillings': eq(e.kind, RT.SHADING), '_text_underlines_strikes': Or(eq(e.kind, RT.UNDERLINE_OR_STRIKE), And(other, line)),
            '_text_highlights': And(other, Not(line))}


def told(L):
    g, e, RT, line = ghost('arbitrary')
    return [(f'in {n} as often as its kind says', eq(getattr(L.self, n).times, Ite(And(L.k_ > g, wanted(e, RT, line)[n]), 1, 0))) for n in NAMES]


@contract(['C05', 'C08', 'C21'], 'shape.Shapes:Shapes.detect_initial_categories', n=0, stubs={'shape.Shape:Shape.semantic_type': lambda ctx: (lambda self, blocks: self.kind)},
    loops={0: Loop(inv=told)}, assumes=['semantic_type returns one of the kinds, whichever'])
def categories(c):
    """of any number of shapes, each is in the parts of its kind once, undecided ones in every part they may belong to; nothing of an earlier analysis is left"""
    M, RT = c.mod('shape.Shapes').Shapes, c.mod('common.share').RectType
    src = c.list('shapes', SHAPE)
    g = c.int('arbitrary shape')
    c.requires(0 <= g, g < Len(src))
    ghost('pos', positions(src))
    e = at(src, g)
    S = c.mod('shape.Shape')
    line = isinstance(e, S.Stroke)
    if isinstance(e, S.Hyperlink): line = None
    ghost('arbitrary', (g, e, RT, line))
    class B:
        _pyvc_stub = True
        text_blocks = ()
        def sort_in_reading_order(self): return self
    class P:
        _pyvc_stub = True
        blocks = B()
    parts = {n: Part(g, c.int('before ' + n), c.int('size ' + n)) for n in NAMES}
    for n, p in parts.items(): ghost(n, p)
    sh = c.raw(M, _instances=src, _parent=P(), **parts)
    c.call(sh.detect_initial_categories)
    for n, w in wanted(e, RT, line).items(): c.ensures(f'in {n} as often as its kind says', eq(parts[n].times, Ite(w, 1, 0)))


# ------------------------------------------------ cleaning
for k in ('Shape', 'Stroke', 'Fill', 'Hyperlink'): schema(k, color='int', type=('enum', 'common.share:RectType'))


def holds(u, b): return And(u.x0 <= b[0], u.y0 <= b[1], u.x1 >= b[2], u.y1 >= b[3])


def joined_box(ctx):
    """contract of get_main_bbox (C15): nothing, or the box around both"""
    def stub(self, e, threshold=0.95):
        ctx.ensures('the threshold of the page', eq(threshold, ghost('settings')[1]))
        if ctx.bool('overlap'):
            a, b = self.bbox, e.bbox
            return ctx.mkrect(Min(a.x0, b.x0), Min(a.y0, b.y0), Max(a.x1, b.x1), Max(a.y1, b.y1))
        return None
    return stub


def as_line(ctx):
    def stub(self, width):
        ctx.ensures('the widest border of the page', eq(width, ghost('settings')[0]))
        ctx.requires(Not(eq(self.type, ghost('arbitrary')[1].HYPERLINK)))  # an area is no link
        if not ctx.bool('thin'): return None
        return ctx.raw(ctx.mod('shape.Shape').Fill, bbox=self.bbox, color=self.color, type=self.type)
    return stub


def as_it_is(ctx):
    def stub(self, r): self.bbox = ctx.mkrect(*r); return self
    return stub


def there(out, n, c):
    """an element of out covers what the arbitrary shape covers, in its colour; a link is there itself, as it was"""
    e, (b, col, link) = c
    return exists(0, n, lambda j: And(holds(at(out, j).bbox, b), eq(at(out, j).color, col), Implies(link, And(same(at(out, j), e), Not(grown(e.bbox, b))))))


def grown(r, b): return Not(And(eq(r.x0, b[0]), eq(r.y0, b[1]), eq(r.x1, b[2]), eq(r.y1, b[3])))


def it(L):
    """the arbitrary one of the shapes looked at, and how it was at first"""
    g, RT = ghost('arbitrary')
    e = at(L.seq_, g)
    ghost('looked')[0] = L.seq_
    return e, (L.entry_(lambda: (e.bbox.x0, e.bbox.y0, e.bbox.x1, e.bbox.y1)), L.entry_(lambda: e.color), L.entry_(lambda: eq(e.type, RT.HYPERLINK)))


def cleaning(L):
    g, RT = ghost('arbitrary')
    e, was = it(L)
    return [('as it was until it is looked at', Implies(And(0 <= g, g < L.n_, L.k_ <= g), Not(grown(e.bbox, was[0])))),
            ('it is there', Implies(And(0 <= g, g < L.k_), there(L.shapes_unique, Len(L.shapes_unique), (e, was)))),
            ('they exist', forall(0, Len(L.shapes_unique), lambda j: exists_now(at(L.shapes_unique, j)))),
            ('those before only', Implies(L.k_ < L.n_, forall(0, Len(L.shapes_unique), lambda j: ghost('pos')(at(L.shapes_unique, j)) < ghost('pos')(at(L.seq_, L.k_)))))]


def turning(L):
    g, RT = ghost('arbitrary')
    out, seq = L.shapes, L.seq_
    links = lambda j: eq(at(seq, j).type, RT.HYPERLINK)
    r = [('one for each', eq(Len(out), L.k_)), ('they exist', forall(0, L.k_, lambda j: exists_now(at(out, j)))),  ('links as they are', forall(0, L.k_, lambda j: Implies(links(j), same(at(out, j), at(seq, j))))),
        ('in its colour', forall(0, L.k_, lambda j: eq(at(out, j).color, at(seq, j).color)))]
    return r + [(f'at its place: {k}', forall(0, L.k_, lambda j: eq(getattr(at(out, j).bbox, k), getattr(at(seq, j).bbox, k)))) for k in ('x0', 'y0', 'x1', 'y1')]


def kept(ctx):
    def stub(self, elements=()):
        ghost('result')[0] = elements
        return self
    return stub


@contract(['C05', 'C08'], 'shape.Shapes:Shapes.clean_up', n=0, stubs={'common.Element:Element.get_main_bbox': joined_box, 'shape.Shape:Fill.to_stroke': as_line, 'common.Element:Element.update_bbox': as_it_is, 'common.Collection:Collection.reset': kept,
    'common.Collection:Collection.sort_in_reading_order': lambda ctx: (lambda self: self)}, loops={0: Loop(inv=cleaning, types={'shapes_unique': ('obj', 'shape.Shape:Fill')}), 1: Loop(inv=lambda L: []),
    2: Loop(inv=turning, types={'shapes': ('obj', 'shape.Shape:Fill')})}, assumes=['get_main_bbox by its contract (C15), sort_in_reading_order permutes', 'boxes are kept to a tenth of a point, so the box around two needs no rounding', 'a link is not an area'])
def cleaned(c):
    """whatever is drawn on the page and not too small stays covered in its colour; links stay as they are"""
    M, S, RT = c.mod('shape.Shapes').Shapes, c.mod('shape.Shape'), c.mod('common.share').RectType
    src = c.list('shapes', ('obj', 'shape.Shape:Fill'))
    pos = ghost('pos', positions(src))
    g = c.int('arbitrary shape looked at')
    ghost('arbitrary', (g, RT)); ghost('looked', [None]); ghost('result', [None])
    width, merge, small = ghost('settings', [c.real('border', 0, 50), c.real('merging', 0, 1), c.real('small', 0, 50)])
    page = c.rect('page', nonempty=True)
    class P:
        _pyvc_stub = True
        bbox = page
    k = c.int('arbitrary shape', 0)
    c.requires(k < Len(src))
    e = at(src, k)
    r = e.bbox
    usable = And(r.x0 < r.x1, r.y0 < r.y1, r.x0 < page.x1, r.x1 > page.x0, r.y0 < page.y1, r.y1 > page.y0, Or(r.x1 - r.x0 >= small, r.y1 - r.y0 >= small))
    was = (r.x0, r.y0, r.x1, r.y1), e.color, eq(e.type, RT.HYPERLINK)
    sh = c.raw(M, _instances=src, _parent=P())
    c.call(sh.clean_up, width, merge, small)
    seq, out = ghost('looked')[0], ghost('result')[0]
    c.ensures('all on the page and not too small are looked at', Implies(usable, exists(0, Len(seq), lambda j: same(at(seq, j), e))))
    c.ensures('whatever is looked at stays covered in its colour, links as they are', Implies(And(0 <= g, g < Len(seq), same(at(seq, g), e)), there(out, Len(out), (e, was))))


# ------------------------------------------------ to the tables
FILL = ('obj', 'shape.Shape:Fill')

def given_to(ctx):
    def stub(self, shapes): ghost('handed').append((self, shapes))
    return stub


def ends(ctx):
    def stub(self, elements=()):
        ghost('page').append(elements)
        return self
    return stub


def inside(a, b): return And(a.x0 <= b.x0, a.y0 <= b.y0, a.x1 >= b.x1, a.y1 >= b.y1)


def shared_out(L):
    ts = ghost('tables')
    r = partition(L.seq_, [L.shapes] + list(L.shapes_in_tables), L.k_, ghost('pos'))
    return r + belongs(L.shapes, list(L.shapes_in_tables), ts)


def belongs(page, shelves, ts):
    mine = lambda e: Or(eq(e.type, RT().BORDER), eq(e.type, RT().SHADING))
    r = [('what is drawn by this table itself or outside all tables stays', forall(0, Len(page), lambda j: Or(mine(at(page, j)), Not(Or([inside(t.bbox, at(page, j).bbox) for t in ts])))))]
    for n, s in enumerate(shelves):
        r.append((f'table {n} gets what is within it', forall(0, Len(s), lambda j: And(Not(mine(at(s, j))), inside(ts[n].bbox, at(s, j).bbox)))))
    return r


def RT(): return ghost('types')[0]


@contract('C05', 'shape.Shapes:Shapes.assign_to_tables', n=0, stubs={'table.TableBlock:TableBlock.assign_shapes': given_to, 'common.Collection:Collection.reset': ends,
    'common.Collection:Collection.sort_in_reading_order': lambda ctx: (lambda self: self)},
    loops={0: Loop(inv=shared_out, types={'shapes': FILL, **{f'shapes_in_tables[{k}]': FILL for k in range(3)}})}, within='3 tables of any boxes, any number of shapes')
def shapes_to_tables(c):
    """a shape goes to the table it is within, once; borders and shading of the table itself, and what is in no table, stay"""
    M, T = c.mod('shape.Shapes').Shapes, c.mod('table.TableBlock').TableBlock
    ghost('types', [c.mod('common.share').RectType])
    src = c.list('shapes', ('obj', 'shape.Shape:Fill'))
    pos = ghost('pos', positions(src))
    c.requires(forall(0, Len(src), lambda j: And(at(src, j).bbox.x0 < at(src, j).bbox.x1, at(src, j).bbox.y0 < at(src, j).bbox.y1)))
    ts = ghost('tables', [c.raw(T, bbox=c.rect(f'table {k}', nonempty=True)) for k in range(c.choice('tables', [0, 3]))])
    handed, page = ghost('handed', []), ghost('page', [])
    sh = c.raw(M, _instances=src, _parent=None)
    c.call(sh.assign_to_tables, ts)
    if not ts:
        c.ensures('nothing happens without tables', not handed and not page)
        return
    c.ensures('the page is renewed once', len(page) == 1)
    c.ensures('no table gets shapes twice', len({id(t) for t, s in handed}) == len(handed))
    shelves = []
    for t in ts: shelves.append(next((s for u, s in handed if u is t), None))
    rest = [s if s is not None else c.vlist([]) for s in shelves]
    for l, x in partition(src, [page[0]] + rest, Len(src), pos) + belongs(page[0], rest, ts): c.ensures(l, x)
