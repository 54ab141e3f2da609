"""C09: blocks of a page and of tables: text goes on, once, through every regrouping"""
from pyvc.spec import *
from .text import filtered, rank_of


class Desk:
    """ghost: what is known of the lines of the block being sorted. ``rest``: number of the lines not in any table yet, ``loose``: of lines
    taken out for a table but not there yet (0: none), ``fresh``: numbers used, ``empty``: nothing is left of the block"""
    _pyvc_stub = True
    def __init__(self, ctx):
        self.ctx, self.block, self.whole = ctx, None, None
        self.rest, self.loose, self.fresh, self.empty, self.y0, self.y1, self.x0, self.x1 = 1, 0, 1, False, 0, 0, 0, 0
    def place(self, b, shelf):
        c = self.ctx
        if b is self.block:
            c.ensures('a block goes as a whole only if nothing of it went before', And(eq(self.rest, 1), eq(self.loose, 0)))
            self.rest = 0
            if shelf is not ghost('page'): c.ensures('a block in a table is within it', And(shelf.bbox.x0 <= b.bbox.x0, shelf.bbox.y0 <= b.bbox.y0, shelf.bbox.x1 >= b.bbox.x1, shelf.bbox.y1 >= b.bbox.y1))
        elif shelf is ghost('page'):
            c.ensures('what is left of it goes to the page', And(eq(b.part, self.rest), eq(self.loose, 0)))
            self.rest = 0
        else:
            c.ensures('lines in a table are those taken out for it', And(eq(b.part, self.loose), self.loose > 0))
            c.ensures('for this table', And(eq(shelf.bbox.x0, self.x0), eq(shelf.bbox.x1, self.x1), eq(shelf.bbox.y0, self.y0), eq(shelf.bbox.y1, self.y1)))
            self.loose = 0


class Shelf:
    """stand-in of a list of blocks, of a table (with its box) or the page"""
    _pyvc_stub = True
    def append(self, b): ghost('desk').place(b, self)


schema('Shelf', bbox='rect')
schema('TableBlock', bbox='rect')
schema('Lines', part='int')


def part_in_box(ctx):
    """contract of split_with_intersection (proved): every line goes to exactly one of two groups"""
    def stub(self, bbox, threshold=0.0):
        d, Lines = ghost('desk'), ctx.mod('text.Lines').Lines
        ctx.ensures('the lines that are left are looked at', And(eq(self.part, d.rest), eq(d.loose, 0)))
        d.loose, d.rest, d.fresh = d.fresh + 1, d.fresh + 2, d.fresh + 2
        d.x0, d.y0, d.x1, d.y1 = bbox.x0, bbox.y0, bbox.x1, bbox.y1
        inner, outer = ctx.raw(Lines, part=d.loose, _instances=ctx.vlist([]), _parent=None), ctx.raw(Lines, part=d.rest, _instances=ctx.list('left', ('obj', 'text.Line:Line')), _parent=None)
        d.empty = eq(Len(outer._instances), 0)
        return inner, outer
    return stub


def takes_part(ctx):
    def stub(self, lines): self.part = lines.part
    return stub


def untouched(L):
    d = ghost('desk')
    return [('not placed yet', And(eq(d.rest, 1), eq(d.loose, 0), not d.empty)), ('not within a table before', forall(0, L.k_, lambda j: Not(ghost('within')(at(ghost('tables'), j).bbox))))]


def sorting(L):
    d = ghost('desk')
    r = [('nothing is on the way', And(eq(d.loose, 0), Not(d.empty) if not isinstance(d.empty, bool) else not d.empty)), ('something is left', And(d.rest >= 1, d.rest <= d.fresh))]
    if ghost('text')[0]: r.append(('the lines left are known', eq(L.lines.part, d.rest)))
    else: r.append(('a table is not divided', eq(d.rest, 1)))
    r.append(('not within any table', forall(0, L.n_, lambda j: Not(ghost('within')(at(ghost('tables'), j).bbox)))))
    return r


@contract('C09', 'page.Blocks:Blocks._assign_block_to_tables', n=0, stubs={'common.Collection:Collection.split_with_intersection': part_in_box, 'text.TextBlock:TextBlock.add': takes_part,
    'text.TextBlock:TextBlock.__init__': lambda ctx: (lambda self, raw=None: None)}, loops={0: Loop(inv=untouched), 1: Loop(inv=sorting, types={'lines': ('obj', 'text.Lines:Lines')})},
    assumes=['split_with_intersection by its contract'])
def to_tables(c):
    """a block goes to the table it is within, or its lines go each to one of the tables or to the page"""
    B, T, TB, Lines, BT = c.mod('page.Blocks').Blocks, c.mod('text.TextBlock').TextBlock, c.mod('table.TableBlock').TableBlock, c.mod('text.Lines').Lines, c.mod('common.share').BlockType
    text = c.choice('text', [True, False])
    d = ghost('desk', Desk(c)); ghost('text', [text])
    b = c.raw(T if text else TB, bbox=c.rect('block', nonempty=True), _type=BT.TEXT if text else BT.LATTICE_TABLE)
    if text: b.lines = c.raw(Lines, part=1, _instances=c.list('lines', ('obj', 'text.Line:Line')), _parent=None)
    d.block = b
    tables, shelves = ghost('tables', c.list('tables', ('obj', 'table.TableBlock:TableBlock'))), c.list('shelves', ('obj', Shelf))
    c.requires(eq(Len(tables), Len(shelves)), forall(0, Len(tables), lambda j: And([eq(getattr(at(tables, j).bbox, k), getattr(at(shelves, j).bbox, k)) for k in ('x0', 'y0', 'x1', 'y1')])),
               forall(0, Len(tables), lambda j: And(at(tables, j).bbox.x0 < at(tables, j).bbox.x1, at(tables, j).bbox.y0 < at(tables, j).bbox.y1)))
    ghost('within', lambda r: And(r.x0 <= b.bbox.x0, r.y0 <= b.bbox.y0, r.x1 >= b.bbox.x1, r.y1 >= b.bbox.y1))
    page = ghost('page', Shelf())
    c.call(B._assign_block_to_tables, b, tables, shelves, page)
    c.ensures('nothing is on the way at the end', eq(d.loose, 0))
    c.ensures('nothing is left at the end', Or(eq(d.rest, 0), d.empty))


# ------------------------------------------------ lines back to the blocks of the PDF
TEXT = ('obj', 'text.TextBlock:TextBlock')
OFF = ufun('lines in the groups before', 'int', 'int')
FLOW = ufun('may be regrouped', 'bool')


class Tally:
    """ghost: lines that are in a paragraph again (``done``), blocks kept as they are"""
    _pyvc_stub = True
    def __init__(self, given): self.given, self.done, self.kept, self.paragraphs, self.result = given, 0, 0, 0, None


def collected(ctx):
    def stub(self, elements): ghost('tally').given.append(elements.owner)
    return stub


def back(ctx):
    def stub(self):
        t = ghost('tally')
        ctx.ensures('before any line is in a paragraph again', eq(t.done, 0))
        t.kept = ghost('blocks') - Len(t.given)
        return ghost('groups')
    return stub


def paragraph(ctx):
    def stub(self, elements=None):
        t = ghost('tally')
        if isinstance(self, ctx.mod('page.Blocks').Blocks):
            t.result = elements
            return self
        ctx.ensures('a paragraph has a line', Len(elements) >= 1)
        ctx.ensures('its lines come after those of the paragraphs before, none left out', forall(0, Len(elements), lambda j: eq(at(elements, j).no, t.done + j)))
        g = ghost('arbitrary')
        o, mid = at(ghost('others')[0], g[0]).bbox, lambda l: (l.bbox.y0 + l.bbox.y1) / 2
        ctx.ensures('nothing is between its lines', Implies(And(0 <= g[0], g[0] < t.kept, 0 <= g[1], g[1] < Len(elements) - 1),
            Not(And(o.y0 >= mid(at(elements, g[1])), o.y1 <= mid(at(elements, g[1] + 1))))))
        t.done, t.paragraphs = t.done + Len(elements), t.paragraphs + 1
        return self
    return stub


def gathering(L):
    t = ghost('tally')
    return partition(L.seq_, [t.given, L.blocks], L.k_, ghost('pos')) + [('lines of those that may be regrouped', forall(0, Len(t.given), lambda j: FLOW(at(t.given, j)))),
        ('others stay', forall(0, Len(L.blocks), lambda j: Not(FLOW(at(L.blocks, j)))))]


def regrouping(L):
    t = ghost('tally')
    ghost('others')[0] = L.others
    return [('lines of the groups so far', eq(t.done, OFF(L.k_))), ('blocks and paragraphs', And(t.paragraphs >= 0, eq(Len(L.blocks), t.kept + t.paragraphs))), ('at first the others', forall(0, t.kept, lambda j: same(at(L.blocks, j), at(L.others, j))))]


def cutting(L):
    t, g = ghost('tally'), ghost('arbitrary')
    o, mid = at(L.others, g[0]).bbox, lambda l: (l.bbox.y0 + l.bbox.y1) / 2
    lines = L.group_lines
    return [('lines so far', And(eq(t.done, L.pre_.tally.done + L.start), 0 <= L.start, L.start <= L.k_)), ('all lines at last', Implies(And(eq(L.k_, L.n_), L.n_ > 0), eq(L.start, Len(lines)))),
        ('nothing is between', forall(L.start, Min(L.k_, Len(lines) - 1), lambda j: Implies(And(0 <= g[0], g[0] < t.kept), Not(And(o.y0 >= mid(at(lines, j)), o.y1 <= mid(at(lines, j + 1))))))),
        ('blocks and paragraphs', And(t.paragraphs >= 0, eq(Len(L.blocks), t.kept + t.paragraphs))), ('at first the others', forall(0, t.kept, lambda j: same(at(L.blocks, j), at(L.others, j))))]


schema('TextBlock', bbox='rect', lines=('obj', 'text.Lines:Lines'))
schema('Lines', owner=TEXT)
schema('Line', bbox='rect', no='int')


@contract(['C09', 'C20'], 'page.Blocks:Blocks.split_back', n=0, stubs={'common.Collection:Collection.extend': collected, 'text.Lines:Lines.split_back': back, 'common.Collection:Collection.reset': paragraph,
    'common.Collection:Collection.sort_in_reading_order': lambda ctx: (lambda self: self), 'text.TextBlock:TextBlock.is_flow_layout': lambda ctx: (lambda self, *args: FLOW(self)),
    'common.Block:Block.is_text_image_block': lambda ctx: (lambda self: ghost('text')(self)), 'text.TextBlock:TextBlock.__init__': lambda ctx: (lambda self, raw=None: setattr(self, 'lines', ctx.raw(ctx.mod('text.Lines').Lines)))},
    loops={0: Loop(inv=gathering, types={'blocks': TEXT}), 1: Loop(inv=regrouping, types={'blocks': TEXT}), 2: Loop(inv=cutting, types={'blocks': TEXT})})
def split_back(c):
    """every line is in exactly one paragraph, in order; a paragraph has lines from one side of any other block only; other blocks are kept"""
    B = c.mod('page.Blocks').Blocks
    src = c.list('blocks', TEXT)
    c.requires(forall(0, Len(src), lambda j: same(at(src, j).lines.owner, at(src, j))))
    ghost('pos', positions(src)); ghost('blocks', Len(src))
    t = ghost('tally', Tally(c.list('given', TEXT)))
    c.requires(eq(Len(t.given), 0))
    text = ghost('text', ufun('is text', 'bool'))
    c.requires(forall(0, Len(src), lambda j: Implies(FLOW(at(src, j)), text(at(src, j)))))
    groups = ghost('groups', c.list('groups', ('list', ('obj', 'text.Line:Line'))))
    c.requires(And(eq(OFF(0), 0), forall(0, Len(groups), lambda g: And(Len(at(groups, g)) >= 1, eq(OFF(g + 1), OFF(g) + Len(at(groups, g))), forall(0, Len(at(groups, g)), lambda j: eq(at(at(groups, g), j).no, OFF(g) + j))))))
    ghost('arbitrary', [c.int('arbitrary block'), c.int('arbitrary line')]); ghost('others', [None])
    b = c.raw(B, _instances=src, _parent=None, floating_image_blocks=[])
    c.call(b.split_back, 1, 2)
    c.ensures('all lines are in paragraphs', eq(t.done, OFF(Len(groups))))
    c.ensures('all blocks and paragraphs are kept', eq(Len(t.result), Len(src) - Len(t.given) + t.paragraphs))


# ------------------------------------------------ rows in one paragraph
class Join:
    """ghost: ``added``: blocks of an arbitrary group whose lines are in its paragraph so far; ``made``: paragraphs before"""
    _pyvc_stub = True
    def __init__(self, added): self.added, self.made, self.result = added, 0, None


ISTEXT = ufun('is text', 'bool')


def new_paragraph(ctx):
    def stub(self, raw=None):
        self.serial = ghost('join').made
        self.lines = ctx.raw(ctx.mod('text.Lines').Lines, serial=self.serial)
    return stub


def takes(ctx):
    def stub(self, lines):
        j = ghost('join')
        ctx.ensures('into the paragraph of the group', eq(self.serial, j.made))
        if j.made == ghost('arbitrary'): j.added.append(lines.owner)
    return stub


def joins(ctx):
    def stub(self, overlap, merging):
        ctx.ensures('settings of the page', And(eq(overlap, ghost('settings')[0]), eq(merging, ghost('settings')[1])))
        j = ghost('join')
        ctx.ensures('lines of the paragraph of the group', eq(self.serial, j.made))
        j.made = j.made + 1
    return stub


def all_of(k):
    """all text of the first k blocks of the arbitrary group is in its paragraph, in order, once"""
    return filtered(at(ghost('groups'), ghost('arbitrary')), ghost('join').added, lambda j: ISTEXT(at(at(ghost('groups'), ghost('arbitrary')), j)), k)


def in_groups(L):
    j, g = ghost('join'), ghost('arbitrary')
    return [('a paragraph for each group', And(eq(Len(L.blocks), L.k_), eq(j.made, L.k_))), ('not before its group', Implies(L.k_ <= g, eq(Len(j.added), 0)))] + \
        [(l, Implies(L.k_ > g, x)) for l, x in all_of(Len(at(ghost('groups'), g)))]


def in_group(L):
    j, g = ghost('join'), ghost('arbitrary')
    return [('within a group', And(eq(j.made, L.pre_.join.made))), ('not before its group', Implies(j.made < g, eq(Len(j.added), 0)))] + \
        [(l, Implies(j.made > g, x)) for l, x in all_of(Len(at(ghost('groups'), g)))] + [(l, Implies(eq(j.made, g), x)) for l, x in all_of(L.k_)] + \
        [('the same paragraph', eq(L.final_block.serial, j.made))]


schema('TextBlock', serial='int')
schema('Lines', serial='int')


@contract(['C09', 'C20'], 'page.Blocks:Blocks.join_horizontally', n=0, stubs={'text.TextBlock:TextBlock.__init__': new_paragraph, 'text.TextBlock:TextBlock.add': takes, 'text.Lines:Lines.join': joins,
    'common.Collection:BaseCollection.group': lambda ctx: (lambda self, fun: ghost('groups')), 'common.Block:Block.is_text_image_block': lambda ctx: (lambda self: ISTEXT(self)),
    'page.Blocks:Blocks.table_blocks': lambda ctx: (lambda self: ghost('tables')), 'common.Collection:Collection.reset': lambda ctx: (lambda self, elements=None: setattr(ghost('join'), 'result', elements))},
    loops={0: Loop(inv=in_groups, types={'blocks': TEXT}), 1: Loop(inv=in_group)}, assumes=['every block is in exactly one group (group is proved in C07); Lines.join by its contract'])
def join_rows(c):
    """the lines of every text block go to the paragraph of its group, once; tables are kept"""
    B = c.mod('page.Blocks').Blocks
    ghost('settings', [c.real('overlap', 0, 1), c.real('merging', 0, 10)])
    groups = ghost('groups', c.list('groups', ('list', TEXT)))
    g = ghost('arbitrary', c.int('arbitrary group'))
    c.requires(0 <= g, g < Len(groups))
    c.requires(forall(0, Len(groups), lambda k: forall(0, Len(at(groups, k)), lambda j: same(at(at(groups, k), j).lines.owner, at(at(groups, k), j)))))
    mine = at(groups, g)
    rank_of(c, Len(mine), lambda j: ISTEXT(at(mine, j)))
    j = ghost('join', Join(c.list('added', TEXT)))
    c.requires(eq(Len(j.added), 0))
    tables = ghost('tables', c.list('tables', TEXT))
    b = c.raw(B, _instances=c.list('blocks', TEXT), _parent=None, floating_image_blocks=[])
    r = c.call(b.join_horizontally, c.bool('direction'), *ghost('settings'))
    for label, x in all_of(Len(mine)): c.ensures(label, x)
    c.ensures('paragraphs of all groups, then all tables', And(eq(Len(j.result), Len(groups) + Len(tables)), forall(0, Len(tables), lambda k: same(at(j.result, Len(groups) + k), at(tables, k)))))


# ------------------------------------------------ to the tables of a page
ANY = ('obj', 'table.TableBlock:TableBlock')       # of any kind: one class stands for all
WHERE = ufun('the table a block goes to, or none', 'int', 'int')


def sent(ctx):
    """contract of _assign_block_to_tables (proved): on, once; here as a whole"""
    def stub(block, tables, shelves, page):
        w = WHERE(ghost('pos')(block))
        for k in range(3):
            if eq(w, k): shelves[k].append(block); return
        page.append(block)
    return stub


def sending(L):
    ss = list(L.blocks_in_tables)
    r = partition(L.seq_, [L.blocks] + ss, L.k_, ghost('pos'))
    return r + [(f'as decided, {n}', forall(0, Len(s), lambda j: eq(WHERE(ghost('pos')(at(s, j))), n))) for n, s in enumerate(ss)]


@contract('C09', 'page.Blocks:Blocks.assign_to_tables', n=0, stubs={'page.Blocks:Blocks._assign_block_to_tables': sent, 'table.TableBlock:TableBlock.assign_blocks': lambda ctx: (lambda self, blocks: ghost('handed').append((self, blocks))),
    'common.Collection:Collection.reset': lambda ctx: (lambda self, elements=(): ghost('renewed').append(elements) or self), 'common.Collection:Collection.sort_in_reading_order': lambda ctx: (lambda self: ghost('sorted').append(1) or self)},
    loops={0: Loop(inv=sending, types={'blocks': ANY, **{f'blocks_in_tables[{k}]': ANY for k in range(3)}})}, within='3 tables, any number of blocks', assumes=['_assign_block_to_tables by its contract'])
def blocks_to_tables(c):
    """what belongs to a table is handed to that table, all at once; the rest and the tables themselves stay"""
    M, T = c.mod('page.Blocks').Blocks, c.mod('table.TableBlock').TableBlock
    src = c.list('blocks', ANY)
    pos = ghost('pos', positions(src))
    ts = [c.raw(T, bbox=c.rect(f'table {k}')) for k in range(c.choice('tables', [0, 3]))]
    handed, out, done = ghost('handed', []), ghost('renewed', []), ghost('sorted', [])
    b = c.raw(M, _instances=src, _parent=None)
    c.call(b.assign_to_tables, ts)
    if not ts:
        c.ensures('nothing happens without tables', not handed and not out)
        return
    c.ensures('the page is renewed once, and sorted', len(out) == 1 and len(done) == 1)
    c.ensures('no table gets blocks twice', len({id(t) for t, s in handed}) == len(handed))
    shelves = [next((s for u, s in handed if u is t), None) for t in ts]
    rest = [s if s is not None else c.vlist([]) for s in shelves]
    page, n = out[0], Len(out[0]) - 3
    c.ensures('the tables stay on the page', And(n >= 0, *[same(at(page, n + k), t) for k, t in enumerate(ts)]))
    for l, x in partition(src, [page[:-3]] + rest, Len(src), pos): c.ensures(l, x)
    for k, s in enumerate(rest): c.ensures('each table gets its own', forall(0, Len(s), lambda j: eq(WHERE(pos(at(s, j))), k)))
