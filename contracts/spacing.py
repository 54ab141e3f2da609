"""C11: vertical position of paragraphs and tables"""
from pyvc.spec import *

SAMEROW = ufun('line in the row of the preceding one', 'int', 'bool')
ROWS = ufun('rows of the first lines', 'int', 'int')


def same_row(ctx):
    def stub(self, e):
        if e is None:
            ctx.ensures('the first line has no predecessor', eq(self.no, 0))
            return False
        ctx.ensures('a line is compared with the preceding one', eq(e.no, self.no - 1))
        return SAMEROW(self.no)
    return stub


@contract('C11', 'text.TextBlock:TextBlock.parse_line_spacing', n=0, stubs={'common.Element:Element.in_same_row': same_row},
    loops={0: Loop(inv=lambda L: [('rows so far', And(eq(L.count, ROWS(L.k_)), Implies(L.k_ > 0, L.count >= 1))),
                                  ('preceding line', And(Iff(L.k_ == 0, L.ref_line is None), eq(L.ref_line.no, L.k_ - 1) if L.ref_line is not None else True))],
                   types={'ref_line': ('opt', ('obj', 'text.Line:Line'))})},
    assumes=['in_same_row by contract (proved in C15)'])
def line_spacing(c):
    """space before and rows fill the distance from the preceding block to the bottom of this one"""
    i = c.choice('direction', [1, 0])
    lines = c.list('lines', ('obj', 'text.Line:Line'))
    n = Len(lines)
    c.requires(n >= 1)
    c.requires(forall(0, n, lambda j: eq(at(lines, j).no, j)))
    c.requires(And(eq(ROWS(0), 0), forall(0, n, lambda j: eq(ROWS(j + 1), ROWS(j) + Ite(And(j > 0, SAMEROW(j)), 0, 1)))))
    b = c.rect('block', nonempty=True)
    before = c.real('space before', -1000, 1000)
    T = type('T', (c.mod('text.TextBlock').TextBlock,), {'is_horizontal_text': i == 1})
    t = c.raw(T, bbox=b, lines=c.raw(c.mod('text.Lines').Lines, _instances=lines), before_space=before, line_space=1.0)
    h0 = at(lines, 0).bbox[i + 2] - at(lines, 0).bbox[i]
    c.call(t.parse_line_spacing)
    m = ROWS(n)
    height = b[i + 2] - b[i]
    c.ensures('at least one row', m >= 1)
    c.ensures('the space before is not negative', t.before_space >= 0)
    room = before + height >= 0.7 * m
    c.ensures('the last row ends where the block does', Implies(room, eq(t.before_space + m * t.line_space, before + height)))
    c.ensures('a row has some height', Implies(And(room, before + height > 0, height > h0), t.line_space > 0))


# ------------------------------------------------ blocks of a page or cell
TEXT, PICTURE, TABLE = 0, 1, 2


class Piece:
    """stand-in of a text block (0), picture (1) or table (2)"""
    _pyvc_stub = True
    def is_text_block(self): return self.kind == TEXT
    def is_inline_image_block(self): return self.kind == PICTURE
    def is_table_block(self): return self.kind == TABLE
    def __getitem__(self, i): return self           # first row, first cell of it; last row
    @property
    def border_width(self): return (self.border,)
    def parse_horizontal_spacing(self, bbox, *args): pass
    def parse_line_spacing(self):
        """contract proved above: the height of the rows together with the space before reaches to the bottom of the block"""
        i = ghost('i')
        want = self.before_space + (self.bbox[i + 2] - self.bbox[i])
        self.rows_height = ghost('some height')(self.no)
        new = want - self.rows_height
        ghost('c').requires(Or(And(new >= 0, True), want < 0.7 * self.rows))
        self.before_space = Ite(new >= 0, new, 0)


schema('Piece', no='int', kind='int', bbox='rect', border='real', before_space='real', after_space='real', rows_height='real', rows='int', height='real')


REACH = ufun('position reached', 'int', 'real')


def half(p): return Ite(p.kind == TABLE, p.border / 2, 0)


def placed(blocks, k, i, bottom):
    """spaces of the first k blocks; the space after a block is known when the next one has been placed"""
    def space(p, j): return Max(p.bbox[i] - half(p) - REACH(j) - Max(p.bbox[i + 2] - bottom, 0), 0)
    P = lambda j: at(blocks, j)
    return [
        ('a paragraph with the space before it ends where it is drawn', forall(0, k, lambda j: Implies(And(P(j).kind == TEXT, P(j).bbox[i + 2] - REACH(j) >= 0.7 * P(j).rows),
            eq(P(j).before_space + P(j).rows_height, P(j).bbox[i + 2] - REACH(j))))),
        ('a picture starts where it is drawn', forall(0, k, lambda j: Implies(P(j).kind == PICTURE, eq(P(j).before_space, space(P(j), j))))),
        ('a table after a paragraph or picture starts where it is drawn', forall(1, k, lambda j: Implies(And(P(j).kind == TABLE, P(j - 1).kind != TABLE), And(eq(P(j - 1).after_space, space(P(j), j)), eq(P(j).before_space, 0))))),
        ('a table after a table starts where it is drawn, but for the paragraph between them', forall(1, k, lambda j: Implies(And(P(j).kind == TABLE, P(j - 1).kind == TABLE), eq(P(j).before_space, Max(space(P(j), j), 1))))),
        ('a table in front starts where it is drawn', Implies(And(k > 0, P(0).kind == TABLE), eq(P(0).before_space, space(P(0), 0)))),
        ('no space is negative', forall(0, k, lambda j: And(P(j).before_space >= 0, P(j).after_space >= 0))),
        ('no space after other paragraphs', forall(0, k, lambda j: Implies(Or(j == k - 1, P(j).kind == TABLE), eq(P(j).after_space, 0)))),
    ]


@contract('C11', 'page.Blocks:Blocks.parse_spacing', n=0,
    loops={0: Loop(inv=lambda L: placed(ghost('blocks'), L.k_, ghost('i'), ghost('bottom')) + [
        ('position reached', eq(L.ref_pos, REACH(L.k_))),
        ('preceding block', Implies(L.k_ > 0, same(L.ref_block, at(ghost('blocks'), L.k_ - 1)))), ('first block', Implies(And(L.k_ == 0, L.n_ > 0), same(L.ref_block, at(ghost('blocks'), 0)))),
        ('untouched blocks', forall(L.k_, L.n_, lambda j: And(eq(at(ghost('blocks'), j).before_space, 0), eq(at(ghost('blocks'), j).after_space, 0)))),
        ('row heights are kept', forall(0, L.n_, lambda j: eq(at(ghost('blocks'), j).height, ghost('height0')(j)))),
        ])},
    assumes=['TextBlock.parse_line_spacing by its contract (proved); parse_horizontal_spacing does not change vertical spaces', 'blocks replaced by stand-ins: text, picture or table with its top border'])
def spacing(c):
    i = ghost('i', c.choice('direction', [1, 0]))
    ghost('c', c)
    area = c.rect('area', nonempty=True)
    ghost('bottom', area[i + 2])
    blocks = ghost('blocks', c.list('blocks', ('obj', Piece)))
    n = Len(blocks)
    c.requires(distinct(blocks))
    P = lambda j: at(blocks, j)
    c.requires(forall(0, n, lambda j: And(eq(P(j).no, j), P(j).kind >= 0, P(j).kind <= 2, P(j).border >= 0, P(j).rows >= 1, P(j).bbox[i] <= P(j).bbox[i + 2], eq(P(j).before_space, 0), eq(P(j).after_space, 0))))
    h = ufun('row height', 'int', 'real')
    ghost('height0', h); ghost('some height', ufun('height of the rows', 'int', 'real'))
    c.requires(forall(0, n, lambda j: eq(P(j).height, h(j))))
    c.requires(And(eq(REACH(0), area[i]), forall(0, n, lambda j: eq(REACH(j + 1), Max(REACH(j), P(j).bbox[i + 2] + half(P(j)))))))
    B = c.mod('page.Blocks').Blocks
    T = type('T', (B,), {'is_horizontal_text': i == 1})
    parent = c.raw(c.mod('table.Cell').Cell)
    L_ = type('Parent', (), {'bbox': area, '_pyvc_stub': True})
    b = c.raw(T, _instances=blocks, _parent=L_())
    c.call(b.parse_spacing)
    for label, cond in placed(blocks, n, i, area[i + 2]): c.ensures(label, cond)
    c.ensures('the last row of a table at the end gives 1 pt to the paragraph after it', Implies(n > 0, eq(P(n - 1).height, h(n - 1) - Ite(P(n - 1).kind == TABLE, 1, 0))))
    c.ensures('other tables keep their heights', forall(0, n - 1, lambda j: eq(P(j).height, h(j))))


# ------------------------------------------------ rows of a table
class Tab:
    """stand-in of a python-docx table"""
    _pyvc_stub = True
    def __init__(self, rows, columns): self.rows, self.columns = rows, columns


class Cols:
    _pyvc_stub = True
    def __init__(self, n): self.n = n
    def vlen(self): return self.n


def cell_stub(ctx):
    def stub(self, table, indexes):
        ctx.ensures('cells are written in order, in their place', And(eq(self.no, Len(ghost('cells'))), eq(indexes[0], ghost('index')), eq(indexes[1], self.no)))
        ghost('cells').append(self.no)
    return stub


schema('Cell', no='int')


@contract('C11', 'table.Row:Row.make_docx', n=0, stubs={'table.Cell:Cell.make_docx': cell_stub, 'table.Row:Pt': lambda ctx: (lambda x: x)},
    loops={0: Loop(inv=lambda L: [('cells so far', eq(Len(ghost('cells')), L.k_))], types={'cells': 'int'})}, assumes=['Cell.make_docx by contract'])
def row(c):
    """a row has exactly its height, and each cell is written once into its place"""
    R = c.mod('table.Row')
    cells = c.list('row cells', ('obj', 'table.Cell:Cell'))
    n = Len(cells)
    c.requires(forall(0, n, lambda j: eq(at(cells, j).no, j)))
    log = ghost('cells', c.list('cells', 'int'))
    c.requires(eq(Len(log), 0))
    k = ghost('index', c.int('row', 0, 20))
    h = c.real('height', -10, 1000)
    class DocRow: _pyvc_stub = True
    d = DocRow()
    class Rows:
        _pyvc_stub = True
        def __getitem__(self, i):
            c.ensures('its own row', eq(i, k))
            return d
    r = c.raw(R.Row, height=h, _cells=c.raw(c.mod('table.Cells').Cells, _instances=cells))
    c.call(r.make_docx, Tab(Rows(), Cols(n)), k)
    c.ensures('the row is exactly as high as drawn', And(eq(d.height, h), d.height_rule == R.WD_ROW_HEIGHT.EXACTLY))
    c.ensures('all cells are written', eq(Len(log), n))
