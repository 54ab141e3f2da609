"""C12: horizontal position of paragraphs: alignment, indents, tab stops, line breaks"""
from pyvc.spec import *

schema('Line', bbox='rect')
schema('Lines', _instances=('list', ('obj', 'text.Line:Line')))


def round1(x, y):
    """x is y rounded to a tenth"""
    return Abs(x - y) <= 0.0501


def direction(c):
    """(indices of start and end, direction factor) of horizontal text, and of text read bottom to top"""
    return c.choice('direction', [(0, 2, 1.0), (3, 1, -1.0)])


def text_block(c, **kw):
    T = c.mod('text.TextBlock').TextBlock
    return c.raw(T, **kw)


@contract('C12', 'text.TextBlock:TextBlock._external_alignment')
def external(c):
    A = c.mod('common.share').TextAlignment
    i0, i1, f = direction(c)
    b, area = c.rect('block', nonempty=True), c.rect('area', nonempty=True)
    thr = c.real('threshold', 0, 10)
    t = text_block(c, bbox=b)
    r = c.call(t._external_alignment, area, (i0, i1, f), thr)
    dl, dr = (b[i0] - area[i0]) * f, (area[i1] - b[i1]) * f
    c.ensures('free space at the start of the block', Or(And(dl >= 0, round1(t.left_space_total, dl)), And(dl <= 0, eq(t.left_space_total, 0))))
    c.ensures('free space at the end of the block', Or(And(dr >= 0, round1(t.right_space_total, dr)), And(dr <= 0, eq(t.right_space_total, 0))))
    c.ensures('no negative space', And(t.left_space_total >= 0, t.right_space_total >= 0))
    c.ensures('a block is centred, or at the left, or at the right', Or(r is A.CENTER, r is A.LEFT, r is A.RIGHT))
    if r is A.CENTER:
        c.ensures('the block is in the middle of the area', Abs((dl - dr) / 2) <= thr + 0.2)
        c.ensures('as much space at the start as at the end', Abs((t.left_space_total - t.right_space_total) / 2) <= thr + 0.2)


def spread(vals):
    """difference of the largest and the smallest value"""
    hi = lo = vals[0]
    for v in vals[1:]: hi, lo = Max(hi, v), Min(lo, v)
    return hi - lo


@contract('C12', 'text.TextBlock:TextBlock._internal_alignment', n=0, stubs={'common.Collection:BaseCollection.group': lambda ctx: (lambda self, fun: ghost('rows'))},
    loops={0: Loop(inv=lambda L: [('no separate parts so far', forall(0, L.k_, lambda k: forall(1, Len(at(L.seq_, k)._instances), lambda j: ghost('gap')(k, j) < L.line_separate_threshold)))])},
    assumes=['rows of a block: any grouping of its lines (group is under contract in C07)'])
def internal(c):
    A = c.mod('common.share').TextAlignment
    i0, i1, f = direction(c)
    rows = c.list('rows', ('obj', 'text.Lines:Lines'))
    n = Len(rows)
    ghost('rows', rows)
    c.requires(n >= 1)
    line = lambda k, j: at(at(rows, k)._instances, j)
    count = lambda k: Len(at(rows, k)._instances)
    c.requires(forall(0, n, lambda k: count(k) >= 1))
    x0 = snapshot(lambda k: line(k, 0).bbox[i0])
    x1 = snapshot(lambda k: line(k, count(k) - 1).bbox[i1])
    sep, tl, tr, tc = (c.real(k, 0, 20) for k in ('separate', 'left', 'right', 'center'))
    t = text_block(c, first_line_space=0.0, lines=c.raw(c.mod('text.Lines').Lines, _instances=c.vlist([])))
    p, q = c.int('some row'), c.int('another row')          # arbitrary rows
    gap = ghost('gap', lambda k, j: (line(k, j).bbox[i0] - line(k, j - 1).bbox[i1]) * f)
    r = c.call(t._internal_alignment, (i0, i1, f), sep, tl, tr, tc)
    if r is not A.NONE:
        c.ensures('no row has separate parts', forall(0, n, lambda k: forall(1, count(k), lambda j: gap(k, j) < sep)))
    if r is A.LEFT or r is A.JUSTIFY:
        c.ensures('rows of a left-aligned block start at the same place, but for the first one', Implies(And(1 <= p, p < n, 1 <= q, q < n), Abs(x0(p) - x0(q)) <= tl))
        c.ensures('displacement of the first row', eq(t.first_line_space, (x0(0) - x0(1)) * f))
    if r is A.JUSTIFY:
        c.ensures('rows of a justified block end at the same place, but for the last one', Implies(And(0 <= p, p < n - 1, 0 <= q, q < n - 1), Abs(x1(p) - x1(q)) <= tr))
        c.ensures('the last row of a justified block is not longer', (x1(n - 1) - x1(0)) * f <= tr)
    if r is A.RIGHT:
        c.ensures('rows of a right-aligned block end at the same place', Implies(And(0 <= p, p < n), Abs(x1(p) - x1(0)) <= tr))
    if r is A.CENTER:
        c.ensures('rows of a centred block have the same centre', Implies(And(0 <= p, p < n, 0 <= q, q < n), Abs((x0(p) + x1(p)) / 2 - (x0(q) + x1(q)) / 2) <= tc))
    if not (r is A.LEFT or r is A.JUSTIFY): c.ensures('rows are not displaced in other cases', eq(t.first_line_space, 0))
    c.ensures('an undecided block has one row, or two rows equal at both sides', Implies(r is A.UNKNOWN, Or(n == 1, And(n == 2, Abs(x0(0) - x0(1)) <= tl, Abs(x1(0) - x1(1)) <= tr))))


def alignment_of(which):
    """contract of _internal_alignment / _external_alignment: some alignment and spaces"""
    def f(ctx):
        def stub(self, *a, **k):
            A = ctx.mod('common.share').TextAlignment
            if which == 'external':
                self.left_space_total, self.right_space_total = ghost('left'), ghost('right')
                r = ctx.choice('external alignment', [A.LEFT, A.RIGHT, A.CENTER])
                if r is A.CENTER: ctx.requires(Abs((self.left_space_total - self.right_space_total) / 2) <= ghost('center') + 0.2)      # proved above
                return r
            return ctx.choice('internal alignment', list(A))
        return stub
    return f


def line_break_stub(ctx):
    def stub(self, *a, **k):
        b = self._parent
        ghost('log').append((b.alignment, b.left_space, b.right_space))
    return stub


SP = ['text.TextBlock:TextBlock._internal_alignment', 'text.TextBlock:TextBlock._external_alignment', 'text.Lines:Lines.parse_line_break']


@contract('C12', 'text.TextBlock:TextBlock.parse_horizontal_spacing', n=0, stubs={SP[0]: alignment_of('internal'), SP[1]: alignment_of('external'), SP[2]: line_break_stub},
    assumes=['the alignment is any that the contracts of _internal_alignment and _external_alignment allow'])
def spacing(c):
    """spaces of a paragraph without tab stops"""
    A = c.mod('common.share').TextAlignment
    i0, i1, f = direction(c)
    log = ghost('log', [])
    L, R = ghost('left', c.real('left space', 0, 1000)), ghost('right', c.real('right space', 0, 1000))
    thr = ghost('center', c.real('center threshold', 0, 10))
    lines = c.raw(c.mod('text.Lines').Lines, _instances=c.vlist([]))
    T = type('T', (c.mod('text.TextBlock').TextBlock,), {'is_horizontal_text': i0 == 0})
    t = c.raw(T, bbox=c.rect('block', nonempty=True), lines=lines, left_space=0.0, right_space=0.0, tab_stops=[], first_line_space=0.0)
    lines._parent = t
    c.call(t.parse_horizontal_spacing, c.rect('area', nonempty=True), 5.0, 0.1, 1.0, 1.0, thr)
    c.ensures('an alignment of a paragraph', Or(t.alignment is A.LEFT, t.alignment is A.RIGHT, t.alignment is A.CENTER, t.alignment is A.JUSTIFY))
    c.ensures('no space is wider than there is', And(le(0, t.left_space), le(t.left_space, L), le(0, t.right_space), le(t.right_space, R)))
    if t.alignment is A.LEFT or t.alignment is A.JUSTIFY: c.ensures('the block starts where it is', eq(t.left_space, L))
    if t.alignment is A.RIGHT or t.alignment is A.JUSTIFY: c.ensures('the block ends where it is', eq(t.right_space, R))
    if t.alignment is A.CENTER: c.ensures('the middle of the block is where it is', Abs((t.left_space - t.right_space) / 2 - (L - R) / 2) <= thr + 0.2)
    c.ensures('line breaks are decided with these spaces', And(len(log) == 1, log[0][0] is t.alignment, eq(log[0][1], t.left_space), eq(log[0][2], t.right_space)))


class Stops:
    _pyvc_stub = True
    def __init__(self, pos): self.pos = pos
    def add_tab_stop(self, p, *a, **k): self.pos.append(p)


class Format:
    """stand-in of a python-docx paragraph format"""
    _pyvc_stub = True


def reset_stub(ctx):
    def stub(p, *a, **k):
        p.reset += 1
        return p.pf
    return stub


def lines_stub(ctx):
    def stub(self, p): p.filled += 1
    return stub


@contract(['C12', 'C11'], 'text.TextBlock:TextBlock.make_docx', n=0, stubs={'common.docx:reset_paragraph_format': reset_stub, 'text.Lines:Lines.make_docx': lines_stub, 'text.TextBlock:Pt': lambda ctx: (lambda x: x)},
    loops={0: Loop(inv=lambda L: [('a tab stop for every position so far', And(eq(Len(ghost('stops')), L.k_), forall(0, L.k_, lambda j: eq(at(ghost('stops'), j), ghost('left') + at(L.seq_, j)))))], types={'pos': 'real', 'stops': 'real'})},
    assumes=['python-docx sets the attributes it is given; Pt(x) stands for x points'])
def paragraph(c):
    """indents and tab stops of a paragraph describe where its rows start and end"""
    A = c.mod('common.share').TextAlignment
    W = c.mod('text.TextBlock').WD_ALIGN_PARAGRAPH
    al = c.choice('alignment', [A.LEFT, A.RIGHT, A.CENTER, A.JUSTIFY])
    left, right, first = c.real('left space', 0, 1000), c.real('right space', 0, 1000), c.real('first line', -1000, 1000)
    ghost('left', left)
    tabs = c.list('tab stops', 'real')
    pos = ghost('stops', c.list('stops', 'real'))
    c.requires(eq(Len(pos), 0))
    t = text_block(c, alignment=al, left_space=left, right_space=right, first_line_space=first, tab_stops=tabs, before_space=c.real('before', 0, 100), after_space=c.real('after', 0, 100),
                   line_space=c.real('line', -10, 100), lines=c.raw(c.mod('text.Lines').Lines, _instances=c.vlist([])))
    p = Format(); p.reset = p.filled = 0
    f = p.pf = Format(); f.tab_stops = Stops(pos)
    c.call(t.make_docx, p)
    c.ensures('the row that starts first starts at the left space', eq(Min(f.left_indent, f.left_indent + f.first_line_indent), left))
    c.ensures('the first row is displaced against the others', eq(f.first_line_indent, first))
    c.ensures('rows end at the right space', eq(f.right_indent, right))
    c.ensures('the alignment', f.alignment == {A.LEFT: W.LEFT, A.RIGHT: W.RIGHT, A.CENTER: W.CENTER, A.JUSTIFY: W.JUSTIFY}[al])
    if al is A.LEFT: c.ensures('a tab stop for every position', And(eq(Len(pos), Len(tabs)), forall(0, Len(tabs), lambda j: eq(at(pos, j), left + at(tabs, j)))))
    c.ensures('filled once with the lines', p.filled == 1)
    c.ensures('spaces and line height as calculated', And(round1(f.space_before, t.before_space), round1(f.space_after, t.after_space), round1(f.line_spacing, t.line_space)))


@contract('C12', 'text.TextBlock:TextBlock.parse_horizontal_spacing', n=0, stubs={SP[0]: lambda ctx: (lambda self, *a: ctx.mod('common.share').TextAlignment.NONE), SP[1]: alignment_of('external'), SP[2]: line_break_stub},
    assumes=['the case that _internal_alignment finds no alignment'])
def tab_positions(c):
    """without alignment, every row and every part of a row has a tab stop at its place"""
    A = c.mod('common.share').TextAlignment
    i0, i1, f = direction(c)
    log = ghost('log', [])
    thr = ghost('center', c.real('center threshold', 0, 10))
    L, R = ghost('left', c.real('left space', 0, 1000)), ghost('right', c.real('right space', 0, 1000))
    items = c.list('lines', ('obj', 'text.Line:Line'))
    n = Len(items)
    lines = c.raw(c.mod('text.Lines').Lines, _instances=items)
    T = type('T', (c.mod('text.TextBlock').TextBlock,), {'is_horizontal_text': i0 == 0})
    b = c.rect('block', nonempty=True)
    t = c.raw(T, bbox=b, lines=lines, left_space=0.0, right_space=0.0, tab_stops=[], first_line_space=0.0)
    lines._parent = t
    off = snapshot(lambda k: (at(items, k).bbox[i0] - b[i0]) * f)
    c.call(t.parse_horizontal_spacing, c.rect('area', nonempty=True), 5.0, 0.1, 1.0, 1.0, thr)
    c.ensures('aligned at the left, in terms of the tab stops', t.alignment is A.LEFT)
    tabs = t.tab_stops
    p = c.int('some line')
    c.requires(And(p >= 0, p < n))
    c.ensures('a line starts at the left space, or at a tab stop', Or(off(p) < 1.06, exists(0, Len(tabs), lambda k: Abs(at(tabs, k) - off(p)) <= 0.0501)))
    k = c.int('some tab stop')
    c.requires(And(k >= 0, k < Len(tabs)))
    c.ensures('a tab stop is the place of a line', exists(0, n, lambda j: Abs(at(tabs, k) - off(j)) <= 0.0501))


# ------------------------------------------------ tabs
class Stop:
    _pyvc_stub = True


schema('Stop', position='real')


class Tabbed:
    """stand-in of a python-docx paragraph: its tab stops, and the number of tabs in it"""
    _pyvc_stub = True
    def __init__(self, stops, tabs): self.paragraph_format, self.tabs = self, tabs; self.tab_stops = stops
    def add_run(self, *a): return self
    def add_tab(self): self.tabs.append(1)


def reached(stops, lo, hi):
    """number of tabs that lead from lo to the last stop up to hi, given the stops in increasing order"""


@contract('C12', 'common.docx:add_stop', n=0, stubs={'common.docx:Pt': lambda ctx: (lambda x: x)},
    loops={0: Loop(inv=lambda L: [('one tab for every stop so far which is behind the current position', And(
        eq(Len(ghost('tabs')), L.k_ - Min(L.k_, ghost('before'))),
        forall(ghost('before'), L.k_, lambda j: at(L.seq_, j).position <= L.pos + 1)))], types={'tabs': 'int'})},
    assumes=['python-docx keeps tab stops in increasing order', 'lengths in points (Pt(x) is x)'])
def tabs(c):
    stops, tabs = c.list('stops', ('obj', Stop)), ghost('tabs', c.list('tabs', 'int'))
    c.requires(eq(Len(tabs), 0))
    n = Len(stops)
    pos, cur = c.real('pos', -100, 2000), c.real('current', -100, 2000)
    P = lambda j: at(stops, j).position
    c.requires(forall(0, n, lambda i: forall(0, n, lambda j: Implies(i < j, P(i) < P(j)))))
    k0, k1 = c.int('first stop behind'), c.int('first stop too far')       # ghost: the stops from k0 to k1-1 are between the positions
    c.requires(And(0 <= k0, k0 <= n, 0 <= k1, k1 <= n))
    c.requires(And(forall(0, k0, lambda j: P(j) < cur), forall(k0, n, lambda j: P(j) >= cur)))
    c.requires(And(forall(0, k1, lambda j: P(j) <= pos + 1), forall(k1, n, lambda j: P(j) > pos + 1)))
    ghost('before', k0)
    c.call(c.mod('common.docx').add_stop, Tabbed(stops, tabs), pos, cur)
    c.ensures('no tab to reach the start', Implies(pos < 1, eq(Len(tabs), 0)))
    c.ensures('as many tabs as there are stops up to the position', Implies(pos >= 1, eq(Len(tabs), Max(k1 - k0, 0))))


# ------------------------------------------------ lines of a paragraph
schema('Line', no='int', line_break='int', text='str')
SAME = ufun('same row', 'int', 'int', 'bool')
APART = ufun('words to be separated', 'int', 'bool')


def same_row(ctx): return lambda self, e: SAME(self.no, e.no)


def stop_stub(ctx):
    """contract of add_stop: tabs lead to the position (proved above); here: from where to where"""
    def stub(p, pos, cur):
        i = Len(ghost('order'))
        lines, b, i0, i1, f = ghost('lines'), ghost('block'), ghost('i0'), ghost('i1'), ghost('f')
        left = ghost('left')
        ctx.ensures('tabs lead to the place where the line starts', eq(pos, left + (at(lines, i).bbox[i0] - b[i0]) * f))
        ctx.ensures('from the end of the preceding line in the row, or the start of the row', eq(cur, Ite(And(i > 0, SAME(i - 1, i)), left + Abs(at(lines, i - 1).bbox[i1] - b[i0]), left)))
        ghost('did').append(i)
    return stub


def line_stub(ctx):
    def stub(self, p):
        order, did = ghost('order'), ghost('did')
        i = Len(order)
        ctx.ensures('lines are written in order', eq(self.no, i))
        b, i0, f = ghost('block'), ghost('i0'), ghost('f')
        off = (self.bbox[i0] - b[i0]) * f
        ctx.ensures('tabs are set for a line behind the start of the block', Implies(And(ghost('has stops'), off > 0), And(Len(did) > 0, eq(at(did, Len(did) - 1), i))))
        ctx.ensures('an earlier break of the row is a blank, if any', Implies(And(i > 0, Not(SAME(i - 1, i)), at(ghost('lines'), i - 1).line_break == 0, APART(i - 1)),
            And(Len(ghost('blanks')) > 0, eq(at(ghost('blanks'), Len(ghost('blanks')) - 1), i))))
        order.append(self.no)
    return stub


class Runs:
    """stand-in of a python-docx paragraph"""
    _pyvc_stub = True
    def __init__(self, c): self.c = c
    def add_run(self, t=''):
        i = Len(ghost('order'))
        self.c.ensures('blanks only, between lines of different rows', And(eq(t, ' '), i > 0, i < Len(ghost('lines')), Not(SAME(i - 1, i)), at(ghost('lines'), i - 1).line_break == 0))
        ghost('blanks').append(i)
        return self


def apart_stub(ctx):
    def stub(a, b): return APART(Len(ghost('order')) - 1)
    return stub


@contract('C12', 'text.Lines:Lines.make_docx', n=0, stubs={'common.docx:add_stop': stop_stub, 'text.Lines:add_stop': stop_stub, 'text.Line:Line.make_docx': line_stub, 'common.Element:Element.in_same_row': same_row,
    'text.Lines:Pt': lambda ctx: (lambda x: x), 'text.Lines:is_separate_word': apart_stub, 'text.Line:Line.raw_text': lambda ctx: (lambda self: ctx.str('text')), 'common.share:is_separate_word': apart_stub},
    loops={0: Loop(inv=lambda L: [
        ('lines so far are written', And(eq(Len(ghost('order')), L.k_), forall(0, L.k_, lambda j: eq(at(ghost('order'), j), j)))),
        ('current position', eq(L.current_pos, Ite(And(L.k_ > 0, SAME(L.k_ - 1, L.k_)), ghost('left') + Abs(at(ghost('lines'), L.k_ - 1).bbox[ghost('i1')] - ghost('block')[ghost('i0')]), ghost('left')))),
        ('no tabs without tab stops', Implies(Not(ghost('has stops')), eq(Len(ghost('did')), 0))),
        ('blank before the next line', Implies(And(L.k_ > 0, L.k_ < L.n_, Not(SAME(L.k_ - 1, L.k_)), at(ghost('lines'), L.k_ - 1).line_break == 0, APART(L.k_ - 1)),
            And(Len(ghost('blanks')) > 0, eq(at(ghost('blanks'), Len(ghost('blanks')) - 1), L.k_)))),
    ], types={'order': 'int', 'did': 'int', 'blanks': 'int', 'pos': 'real'})},
    assumes=['lengths in points (Pt(x) is x)', 'add_stop, Line.make_docx, in_same_row and is_separate_word by contract'])
def lines_of(c):
    i0, i1, f = direction(c)
    lines = ghost('lines', c.list('lines', ('obj', 'text.Line:Line')))
    n = Len(lines)
    c.requires(distinct(lines))
    c.requires(forall(0, n, lambda j: eq(at(lines, j).no, j)))
    left = ghost('left', c.real('left space', 0, 1000))
    b = ghost('block', c.rect('block', nonempty=True))
    ghost('i0', i0); ghost('i1', i1); ghost('f', f)
    stops = ghost('has stops', c.choice('tab stops', [True, False]))
    T = type('T', (c.mod('text.TextBlock').TextBlock,), {'is_horizontal_text': i0 == 0})
    block = c.raw(T, bbox=b, left_space=left, tab_stops=[10.0] if stops else [])
    for k in ('order', 'did', 'blanks'):
        l = ghost(k, c.list(k, 'int'))
        c.requires(eq(Len(l), 0))
    l = c.raw(c.mod('text.Lines').Lines, _instances=lines, _parent=block)
    c.call(l.make_docx, Runs(c))
    c.ensures('every line is written once', eq(Len(ghost('order')), n))
    if not stops: c.ensures('no tabs without tab stops', eq(Len(ghost('did')), 0))


# ------------------------------------------------ line breaks
BLANK = ufun('line of blanks', 'int', 'bool')


class Blank:
    """text of a line, of which only matters whether there is anything but blanks"""
    _pyvc_stub = True
    def __init__(self, no): self.no = no
    def strip(self): return Blank(self.no)
    def __bool__(self): return bool(Not(BLANK(self.no)))


def broken(n, i, free, thr):
    """the line break that line i should have"""
    return Ite(Or(i == n - 1, SAME(i, i + 1)), 0, Ite(Or(free(i) > thr, BLANK(i + 1)), 1, 0))


@contract('C12', 'text.Lines:Lines.parse_line_break', n=0, stubs={'common.Element:Element.in_same_row': same_row, 'text.Line:Line.text': lambda ctx: (lambda self: Blank(self.no))},
    loops={0: Loop(inv=lambda L: [('line breaks so far', forall(0, L.k_, lambda j: eq(at(ghost('lines'), j).line_break, broken(L.n_, j, ghost('free'), ghost('thr')))))])},
    assumes=['in_same_row by contract', 'a block has a width'])
def line_breaks(c):
    """a row is broken where it leaves more free space than the threshold (or the next is blank): not within a row and not after the last one"""
    A = c.mod('common.share').TextAlignment
    i0, i1, f = direction(c)
    lines = ghost('lines', c.list('lines', ('obj', 'text.Line:Line')))
    n = Len(lines)
    c.requires(distinct(lines))
    c.requires(forall(0, n, lambda j: eq(at(lines, j).no, j)))
    b = c.rect('block', nonempty=True)
    al = c.choice('alignment', [A.LEFT, A.RIGHT, A.CENTER, A.JUSTIFY])
    L, LT, R, RT = (c.real(k, 0, 1000) for k in ('left', 'left total', 'right', 'right total'))
    thr = ghost('thr', c.real('threshold', 0, 1))
    T = type('T', (c.mod('text.TextBlock').TextBlock,), {'is_horizontal_text': i0 == 0})
    t = c.raw(T, bbox=b, alignment=al, left_space=L, left_space_total=LT, right_space=R, right_space_total=RT)
    x = snapshot(lambda j: at(lines, j).bbox[i0]), snapshot(lambda j: at(lines, j).bbox[i1])
    width = Abs(b[i1] - b[i0])
    free = lambda j: ((Abs(b[i0] - x[0](j)) + (LT - L)) if al is A.RIGHT else (Abs(b[i1] - x[1](j)) + (RT - R))) / width
    ghost('free', free)
    l = c.raw(c.mod('text.Lines').Lines, _instances=lines, _parent=t)
    c.call(l.parse_line_break, thr)
    c.ensures('every row is broken as it should', forall(0, n, lambda j: eq(at(lines, j).line_break, broken(n, j, free, thr))))


schema('TextSpan', no='int')


class Runs2:
    _pyvc_stub = True
    def __init__(self, c): self.c = c
    def add_run(self, t=''):
        self.c.ensures('breaks come last', eq(Len(ghost('order')), Len(ghost('spans'))))
        self.c.ensures('a line break', eq(t, '\n'))
        ghost('breaks').append(1)
        return self


def span_stub(ctx):
    def stub(self, p):
        ctx.ensures('spans are written in order', eq(self.no, Len(ghost('order'))))
        ghost('order').append(self.no)
    return stub


@contract('C12', 'text.Line:Line.make_docx', n=0, stubs={'text.TextSpan:TextSpan.make_docx': span_stub},
    loops={0: Loop(inv=lambda L: [('spans so far', And(eq(Len(ghost('order')), L.k_), eq(Len(ghost('breaks')), 0)))], types={'order': 'int', 'breaks': 'int'})})
def line_of(c):
    """a line is its spans, followed by a line break if there is one"""
    spans = ghost('spans', c.list('spans', ('obj', 'text.TextSpan:TextSpan')))
    c.requires(forall(0, Len(spans), lambda j: eq(at(spans, j).no, j)))
    for k in ('order', 'breaks'):
        l = ghost(k, c.list(k, 'int'))
        c.requires(eq(Len(l), 0))
    br = c.choice('line break', [0, 1])
    l = c.raw(c.mod('text.Line').Line, spans=c.raw(c.mod('text.Spans').Spans, _instances=spans), line_break=br)
    c.call(l.make_docx, Runs2(c))
    c.ensures('every span is written', eq(Len(ghost('order')), Len(spans)))
    c.ensures('one line break, if any', eq(Len(ghost('breaks')), br))
