"""C20: the body of the document follows the blocks of the page"""
from pyvc.spec import *

schema('Block', _type=('enum', 'common.share:BlockType'), id='int', num_rows='int', num_cols='int', before_space='real')
PAR, TBL = 0, 1


class Par:
    """stand-in of a python-docx paragraph: its position in the body"""
    _pyvc_stub = True
    def __init__(self, pos): self.pos = pos


class Table:
    """stand-in of a python-docx table"""
    _pyvc_stub = True
    def __init__(self, pos, rows, cols): self.pos, self.rows, self.cols = pos, rows, cols


class Pars:
    """doc.paragraphs: the paragraphs of the body; only the last one matters"""
    _pyvc_stub = True
    def __init__(self, doc): self.doc = doc
    def __bool__(self): return bool(self.doc.lastp >= 0)
    def __getitem__(self, i):
        if i != -1: unsupported('a paragraph other than the last one')
        if not self: raise IndexError('list index out of range')
        return Par(self.doc.lastp)


class Doc:
    """stand-in of a python-docx document or cell: kinds of the elements of its body, and which of them holds what block"""
    _pyvc_stub = True
    def __init__(self, c, before, lastp):
        self.kinds, self.who, self.at, self.lastp = before, c.list('who', 'int'), c.list('at', 'int'), lastp
        c.requires(And(eq(Len(self.who), 0), eq(Len(self.at), 0)))
    @property
    def paragraphs(self): return Pars(self)
    def add_paragraph(self, text='', style=None):
        self.kinds.append(PAR)
        self.lastp = Len(self.kinds) - 1
        return Par(self.lastp)
    def add_table(self, rows, cols, *a):
        self.kinds.append(TBL)
        return Table(Len(self.kinds) - 1, rows, cols)


def block_make(ctx):
    """contract of TextBlock/TableBlock.make_docx: fill the element passed to it"""
    def stub(self, target):
        d = ghost('doc')
        ctx.ensures('a block is written into the element just added for it', eq(target.pos, Len(d.kinds) - 1))
        if isinstance(target, Table):
            k = at(d.at, Len(d.at) - 1) + 1 if Len(d.at) > 0 else ghost('first').n
            ctx.ensures('a table that starts below its place is preceded by a paragraph of this height', Implies(self.before_space >= 0.7, eq(target.pos, k + 1)))
            ctx.ensures('a table has the rows and columns of the block', And(eq(target.rows, self.num_rows), eq(target.cols, self.num_cols)))
        d.who.append(self.id); d.at.append(target.pos)
    return stub


def image_make(ctx):
    def stub(self, target):
        ctx.ensures('a floating picture is anchored in a paragraph of its page', And(isinstance(target, Par), target.pos >= ghost('first').n))
        ghost('doc').images.append(self.id)
    return stub


def table(b):
    return Or(b._type == b.TYPES.LATTICE_TABLE, b._type == b.TYPES.STREAM_TABLE)


def gap_make(ctx):
    """contract of reset_paragraph_format: exact line height"""
    def stub(p, line_spacing=1.05):
        d, blocks = ghost('doc'), ghost('blocks')
        k = Len(d.who)
        ctx.ensures('the paragraph just added is formatted', eq(p.pos, Len(d.kinds) - 1))
        if k < Len(blocks):
            before = at(blocks, k).before_space
            ctx.ensures('the paragraph before a table is as high as the space there', And(line_spacing <= before, line_spacing >= before - 0.1, line_spacing >= 0))
        else: ctx.ensures('the paragraph closing a page is small', eq(line_spacing, 0.7))
    return stub


class First:
    _pyvc_stub = True


def follows(d, blocks, k, n0):
    """body after k blocks"""
    at_, kinds = d.at, d.kinds
    def istab(j): return ghost('istab')(at(blocks, j))
    return [
        ('every block so far is written once, in order', And(eq(Len(d.who), k), eq(Len(at_), k), forall(0, k, lambda j: eq(at(d.who, j), at(blocks, j).id)))),
        ('a table is a table, a text a paragraph', forall(0, k, lambda j: And(at(at_, j) >= n0, at(at_, j) < Len(kinds), eq(at(kinds, at(at_, j)), Ite(istab(j), TBL, PAR))))),
        ('at most a separating paragraph precedes a table, nothing a text', forall(0, k, lambda j: (lambda prev: Or(
            eq(at(at_, j), prev), And(istab(j), eq(at(at_, j), prev + 1), eq(at(kinds, prev), PAR))))(Ite(j > 0, at(at_, j - 1) + 1, n0)))),
        ('two tables are separated', forall(1, k, lambda j: Implies(And(istab(j), istab(j - 1)), eq(at(at_, j), at(at_, j - 1) + 2)))),
        ('nothing follows the last block', eq(Len(kinds), Ite(k > 0, at(at_, k - 1) + 1, n0))),
    ]


def unchanged(L):
    d = ghost('doc')
    old = L.pre_.doc
    return [('the body is unchanged', And(eq(Len(d.kinds), Len(old.kinds)), eq(d.lastp, old.lastp), forall(0, Len(old.kinds), lambda i: eq(at(d.kinds, i), at(old.kinds, i)))))]


def written(L):
    d, n0 = ghost('doc'), ghost('first').n
    return follows(d, L.seq_, L.k_, n0) + [
        ('the state remembers a preceding table', Iff(L.pre_table, And(L.k_ > 0, ghost('istab')(at(L.seq_, L.k_ - 1))))),
        ('last paragraph of the body', And(d.lastp >= L.pre_.doc.lastp, d.lastp < Len(d.kinds), Or(eq(d.lastp, L.pre_.doc.lastp), d.lastp >= n0))),
        ('last paragraph of this page', Implies(And(L.k_ > 0, Not(ghost('istab')(at(L.seq_, L.k_ - 1)))), d.lastp >= n0)),
    ]


@contract(['C20', 'C11', 'C10'], 'page.Blocks:Blocks.make_docx', n=0, stubs={
    'common.Block:Block.make_docx': block_make, 'image.ImageBlock:ImageBlock.make_docx': image_make,
    'page.Blocks:reset_paragraph_format': gap_make, 'page.Blocks:Pt': lambda ctx: (lambda x: x)},
    loops={0: Loop(inv=written, types={'kinds': 'int', 'who': 'int', 'at': 'int'}),
           1: Loop(inv=lambda L: unchanged(L) + [('stops at the last block', eq(L.k_, 0))], types={'kinds': 'int'}),
           2: Loop(inv=lambda L: [('the pictures so far are written, in order', And(eq(Len(ghost('doc').images), L.k_), forall(0, L.k_, lambda j: eq(at(ghost('doc').images, j), at(L.seq_, j).id))))], types={'images': 'int'})},
    assumes=['python-docx document replaced by a stand-in that records the kind of every element added to its body',
             'TextBlock/TableBlock/ImageBlock.make_docx replaced by their contract: they fill the element passed to them'])
def body(c):
    B, E = c.mod('page.Blocks').Blocks, c.mod('common.share').BlockType
    blocks = c.list('blocks', ('obj', 'common.Block:Block'))
    ghost('blocks', blocks)
    c.requires(forall(0, Len(blocks), lambda j: at(blocks, j).before_space >= 0))
    images = c.list('images', ('obj', 'image.ImageBlock:ImageBlock'))
    n = Len(blocks)
    ghost('istab', lambda b: Or(b._type == E.LATTICE_TABLE, b._type == E.STREAM_TABLE))
    c.requires(forall(0, n, lambda j: Or(at(blocks, j)._type == E.TEXT, at(blocks, j)._type == E.IMAGE, at(blocks, j)._type == E.LATTICE_TABLE, at(blocks, j)._type == E.STREAM_TABLE)))
    in_cell = c.choice('in a cell', [False, True])
    if in_cell: parent = c.raw(c.mod('table.Cell').Cell)
    else: parent = c.raw(c.mod('page.Page').Page)
    before, lastp = c.list('before', 'int'), c.int('last paragraph before')
    c.requires(And(lastp >= -1, lastp < Len(before)))
    first = ghost('first', First()); first.n = Len(before)
    d = ghost('doc', Doc(c, before, lastp))
    d.images = c.list('written images', 'int')
    c.requires(eq(Len(d.images), 0))
    n0 = Len(before)
    old = snapshot(lambda i: at(before, i))
    b = c.raw(B, _instances=blocks, _parent=parent, floating_image_blocks=images)
    c.call(b.make_docx, d)
    for label, cond in follows(d, blocks, n, n0)[:-1]: c.ensures(label, cond)
    end = Ite(n > 0, at(d.at, n - 1) + 1, n0)
    if in_cell:
        c.ensures('nothing is added after the blocks of a cell', eq(Len(d.kinds), end))
        return
    closed = And(n > 0, ghost('istab')(at(blocks, n - 1)))
    c.ensures('a page that ends with a table is closed by one paragraph', Implies(closed, And(eq(Len(d.kinds), end + 1), eq(at(d.kinds, end), PAR))))
    c.ensures('nothing is added after a text', Implies(And(n > 0, Not(closed)), eq(Len(d.kinds), end)))
    c.ensures('a page without blocks gets at most one paragraph', Implies(n == 0, Or(eq(Len(d.kinds), n0), And(eq(Len(d.kinds), n0 + 1), eq(at(d.kinds, n0), PAR)))))
    c.ensures('the document has a paragraph', d.lastp >= 0)
    c.ensures('every floating picture is written once, in order', And(eq(Len(d.images), Len(images)), forall(0, Len(images), lambda j: eq(at(d.images, j), at(images, j).id))))
