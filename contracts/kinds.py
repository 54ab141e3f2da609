"""C05, C08: what lines and areas are, by the text near them; C09, C11, C12: formats written"""
from pyvc.spec import *
from contracts.tables import W, Tc

BLOCK = ('obj', 'text.TextBlock:TextBlock')
for k in ('TextBlock', 'Line'): schema(k, bbox='rect')
schema('TextBlock', kind=('enum', 'common.share:RectType'))
schema('Near', bbox='rect', kind=('enum', 'common.share:RectType'))


class Near:
    """a text block: its box, and what the shape is by this block"""
    _pyvc_stub = True


@contract(['C05', 'C08'], 'shape.Shape:Shape.semantic_type', n=0, stubs={'shape.Shape:Shape._check_semantic_type': lambda ctx: (lambda self, b: b.kind)},
    loops={0: Loop(types={'rect_type': ('enum', 'common.share:RectType')}, inv=lambda L: [('nothing known so far', eq(L.rect_type, ghost('none'))), ('as the blocks so far tell nothing', ghost('silent')(L.k_))])},
    assumes=['what one block tells, proved below'])
def kind(c):
    """the first block, in order, that tells what a shape is decides; only blocks above, or below one that is below the shape, are left out"""
    S, RT = c.mod('shape.Shape'), c.mod('common.share').RectType
    ghost('none', RT.UNDEFINED)
    blocks = c.list('blocks', ('obj', Near))
    n = Len(blocks)
    b = c.rect('shape')
    above = lambda j: at(blocks, j).bbox.y1 < b.y0
    below = lambda j: at(blocks, j).bbox.y0 > b.y1
    tells = lambda j: Not(eq(at(blocks, j).kind, RT.UNDEFINED))
    ghost('silent', lambda k: forall(0, k, lambda j: Or(above(j), And(Not(tells(j)), Not(below(j))))))
    r = c.call(c.raw(S.Shape, bbox=b, _parent=None).semantic_type, blocks)
    if r is RT.UNDEFINED or bool(eq(r, RT.UNDEFINED)):
        c.ensures('undecided only if no block that touches it tells', forall(0, n, lambda j: Or(above(j), Not(tells(j)), exists(0, j, below), below(j))))
    else:
        c.ensures('as the first block tells', exists(0, n, lambda j: And(eq(at(blocks, j).kind, r), Not(above(j)), forall(0, j, lambda i: Or(above(i), Not(tells(i)))))))


PART = ufun('part_of_line', 'bool')


class Row:
    """a line of text"""
    def contains(self, e, threshold=1.0):
        ghost('asked', threshold)
        return PART(self)
schema('Row', bbox='rect')


class Text:
    """a text block that may contain the shape"""
    _pyvc_stub = True
    def contains(self, e, threshold=1.0): return ghost('within')


@contract(['C05', 'C08'], 'shape.Shape:Stroke._check_semantic_type', n=0, loops={0: Loop(inv=lambda L: [
    ('in none of the lines so far', forall(0, L.k_, lambda j: Not(PART(at(L.seq_, j)))))])})
def kind_of_line(c):
    """a line is an underline or strike exactly if it is within the block and one of its lines"""
    S, RT = c.mod('shape.Shape'), c.mod('common.share').RectType
    t = Text()
    t.lines = c.list('lines', ('obj', Row))
    ghost('within', c.bool('within the block'))
    r = c.call(c.raw(S.Stroke, bbox=c.rect('b'), _parent=None)._check_semantic_type, t)
    some = exists(0, Len(t.lines), lambda j: PART(at(t.lines, j)))
    c.ensures('a text line exactly if within the block and a line', eq(And(ghost('within'), some), r is RT.UNDERLINE_OR_STRIKE))
    c.ensures('else undecided', r is RT.UNDERLINE_OR_STRIKE or r is RT.UNDEFINED)


COVERED = ufun('covered_row', 'bool')


def covers(ctx):
    def stub(self, e, threshold=1.0):
        ctx.ensures('a margin is left', And(threshold > .5, threshold < 1))
        return ghost('within') if isinstance(e, Text) else COVERED(e)
    return stub


@contract(['C05', 'C08'], 'shape.Shape:Fill._check_semantic_type', n=0, stubs={'common.Element:Element.contains': covers}, loops={0: Loop(inv=lambda L: [
    ('covers none of the lines so far', forall(0, L.k_, lambda j: Not(COVERED(at(L.seq_, j)))))])})
def kind_of_area(c):
    """an area is a shading exactly if it covers the block or one of its lines"""
    S, RT = c.mod('shape.Shape'), c.mod('common.share').RectType
    t = Text()
    t.lines = c.list('lines', ('obj', Row))
    ghost('within', c.bool('covers the block'))
    r = c.call(c.raw(S.Fill, bbox=c.rect('b'), _parent=None)._check_semantic_type, t)
    some = exists(0, Len(t.lines), lambda j: COVERED(at(t.lines, j)))
    c.ensures('a shading exactly if the block or a line is covered', eq(Or(ghost('within'), some), r is RT.SHADING))
    c.ensures('else undecided', r is RT.SHADING or r is RT.UNDEFINED)


# ------------------------------------------------ what is written
@contract(['C11', 'C12'], 'common.docx:reset_paragraph_format', n=0, stubs={'common.docx:Pt': lambda ctx: (lambda x: x)}, assumes=['python-docx and lxml create the XML elements they are asked for'])
def reset_format(c):
    """no space, no indent, and the line height given"""
    class F: _pyvc_stub = True
    class Pr:
        _pyvc_stub = True
        els = []
        def insert(self, k, e): self.els.insert(k, e)
    class X:
        _pyvc_stub = True
        def get_or_add_pPr(self): return pr
    class P: _pyvc_stub = True
    pr, f, p = Pr(), F(), P()
    pr.els = []
    p._p, p.paragraph_format = X(), f
    for a in ('space_before', 'space_after', 'left_indent', 'right_indent'): setattr(f, a, c.real(a))
    h = c.real('height', 0, 1000)
    r = c.call(c.mod('common.docx').reset_paragraph_format, p, line_spacing=h)
    c.ensures('the height given', eq(f.line_spacing, h))
    c.ensures('nothing else moves it', And(*[eq(getattr(f, a), 0) for a in ('space_before', 'space_after', 'left_indent', 'right_indent')]))
    c.ensures('the format of this paragraph', r is f)
    c.ensures('no space added within the text', sorted((e.tag, e.get(W + 'val')) for e in pr.els) == [(W + 'autoSpaceDE', '0'), (W + 'autoSpaceDN', '0')])


@contract('C09', 'common.docx:set_vertical_cell_direction', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def vertical_cell(c):
    tc = Tc()
    d = c.choice('direction', ['btLr', 'tbRl'])
    c.call(c.mod('common.docx').set_vertical_cell_direction, C_(tc), d)
    c.ensures('one direction, as given', [(e.tag, e.get(W + 'val')) for e in tc.props.els] == [(W + 'textDirection', d)])


class C_:
    _pyvc_stub = True
    def __init__(self, tc): self._tc = tc
