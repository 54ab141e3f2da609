"""C08: marks style exactly the characters they cover"""
from pyvc.spec import *
from contracts.text import shallow
from contracts.restore import upright

schema('Char', bbox='rect', c='str')
IN = ufun('in_mark', 'bool')


def covered(ctx):
    """contract of Char.contained_in_rect (proved below): a predicate of the character"""
    def stub(self, rect, horizontal=True): return IN(self)
    return stub


def styled(ctx):
    def stub(self, rect, horizontal=True):
        self.marked = getattr(self, 'marked', 0) + 1
        return True
    return stub


@contract('C08', 'text.TextSpan:TextSpan.split', n=0, stubs={'common.Element:Element.copy': shallow, 'text.Char:Char.contained_in_rect': covered,
    'text.TextSpan:TextSpan._parse_text_format': styled}, assumes=['Element.copy (copy.deepcopy) yields an equal object'])
def split(c):
    T, S = c.mod('text.TextSpan').TextSpan, c.mod('shape.Shape').Shape
    chars = c.list('chars', ('obj', 'text.Char:Char'))
    src, n = chars.copy(), Len(chars)
    s = c.raw(T, bbox=c.rect('b', nonempty=True), chars=chars, style=[], color=7, size=10.0, flags=3, _font='Arial', _parent=None)
    r = c.raw(S, bbox=c.rect('r'))
    out = c.call(s.split, r, c.choice('horizontal', [True, False]))
    out = list(out)
    tot, marked = 0, []
    for p in out:
        a = tot
        tot = tot + Len(p.chars)
        c.ensures('the parts hold the characters of the span, in order', forall(0, Len(p.chars), lambda j: same(at(p.chars, j), at(src, a + j))))
        c.ensures('the parts keep the attributes', p.color == 7 and p.size == 10.0 and p.flags == 3 and p._font == 'Arial')
        c.ensures('no part is empty', Implies(n > 0, Len(p.chars) > 0))
        if getattr(p, 'marked', 0): marked.append((a, tot, p))
    c.ensures('no character is lost', eq(tot, n))
    c.ensures('at most one part is styled, once', len(marked) <= 1 and all(p.marked == 1 for _, _, p in marked))
    if marked:
        a, b, _ = marked[0]
        c.ensures('the styled part begins and ends with a covered character', And(IN(at(src, a)), IN(at(src, b - 1))))
        c.ensures('all covered characters are in the styled part', forall(0, n, lambda j: Implies(IN(at(src, j)), And(a <= j, j < b))))
    elif len(out) == 1 and out[0] is s:
        x = s.bbox
        touching = And(Max(x.x0, r.bbox.x0) <= Min(x.x1, r.bbox.x1), Max(x.y0, r.bbox.y0) <= Min(x.y1, r.bbox.y1))
        nonempty = And(r.bbox.x0 < r.bbox.x1, r.bbox.y0 < r.bbox.y1)
        c.ensures('a span that is not split has no covered character', Implies(And(touching, nonempty), forall(0, n, lambda j: Not(IN(at(src, j))))))


@contract('C08', 'text.Char:Char.contained_in_rect')
def contained(c):
    Char, S = c.mod('text.Char').Char, c.mod('shape.Shape').Shape
    a = c.raw(Char, bbox=c.rect('char'), c='x')
    m = c.raw(S, bbox=c.rect('mark'))
    hor = c.choice('horizontal', [True, False])
    r = c.call(a.contained_in_rect, m, hor)
    i = 0 if hor else 1
    b, k = a.bbox, m.bbox
    nonempty = And(b.x0 < b.x1, b.y0 < b.y1, k.x0 < k.x1, k.y0 < k.y1)
    ov = Min(b[i + 2], k[i + 2]) - Max(b[i], k[i])
    touch = And(Max(b[1 - i], k[1 - i]) <= Min(b[3 - i], k[3 - i]))
    c.ensures('covered only if more than half of the extent along the text is', Implies(And(nonempty, r), And(touch, ge(ov, (b[i + 2] - b[i]) / 2))))
    c.ensures('covered if more than half of the extent along the text is', Implies(And(nonempty, touch, gt0(ov - (b[i + 2] - b[i]) / 2)), r))


def gt0(x): return x > (0 if sym() else 1e-4)


def merged(ctx):
    """contract of Element.get_main_bbox (C15): the union, or None"""
    def stub(self, e, threshold=0.95):
        r = ctx.bool('overlap')
        if r: return ctx.rect('union', nonempty=True)
        return None
    return stub


@contract('C08', 'text.TextSpan:TextSpan._parse_text_format', n=0, stubs={'common.Element:Element.get_main_bbox': merged})
def kind_of_mark(c):
    T, sh = c.mod('text.TextSpan').TextSpan, c.mod('shape.Shape')
    RT = c.mod('common.share').RectType
    hor = c.choice('horizontal', [True, False])
    kind = c.choice('kind', [RT.UNDEFINED, RT.HYPERLINK, RT.BORDER, RT.SHADING])
    white = c.choice('white', [True, False])
    s = c.raw(T, bbox=c.rect('span', nonempty=True), style=[], color=7)
    m = c.raw(sh.Hyperlink if kind is RT.HYPERLINK else sh.Shape, bbox=c.rect('mark', nonempty=True), type=kind, color=0xFFFFFF if white else c.int('color', 0, 0xFFFFFE), uri='u')
    c.call(s._parse_text_format, m, hor)
    i = 1 if hor else 0
    h, hm = s.bbox[i + 2] - s.bbox[i], m.bbox[i + 2] - m.bbox[i]
    d = Abs(s.bbox[i + 2] - m.bbox[i])
    st = list(s.style)
    t = st[0]['type'] if st else None
    c.ensures('at most one style', len(st) <= 1)
    if kind in (RT.BORDER, RT.SHADING): c.ensures('table borders and shadings are no style', t is None)
    elif kind is RT.HYPERLINK: c.ensures('a link', t == RT.HYPERLINK.value and st[0]['uri'] == 'u')
    else:
        if t is not None: c.ensures('the colour of the mark', eq(st[0]['color'], m.color))
        thin = hm * 2 < h
        c.ensures('underline exactly if thin and within the bottom quarter', Iff(t == RT.UNDERLINE.value, And(thin, d * 4 <= h)))
        c.ensures('strike-through exactly if thin and around the centre', Iff(t == RT.STRIKE.value, And(thin, d * 20 > 7 * h, d * 4 < 3 * h)))
        c.ensures('highlight only if high and not white', Implies(t == RT.HIGHLIGHT.value, And(Not(thin), not white)))
        c.ensures('a thin mark elsewhere is no style', Implies(And(thin, Not(d * 4 <= h), Not(And(d * 20 > 7 * h, d * 4 < 3 * h))), t is None))


# ------------------------------------------------ blanks
def cover_(ctx):
    """contract of cal_bbox: some box"""
    return lambda self: ctx.rect('box')


class Text:
    """a text of `lead` blanks, `mid` characters not beginning or ending with a blank, `trail` blanks (lead = all of them if mid = 0)"""
    _pyvc_stub = True
    def __init__(self, lead, mid, trail): self.lead, self.mid, self.trail = lead, mid, trail
    def vlen(self): return self.lead + self.mid + self.trail
    def startswith(self, s): return self.lead >= blank(s)
    def endswith(self, s): return Ite(self.mid == 0, self.lead, self.trail) >= blank(s)
    def lstrip(self, s=' '): return blank(s) and Text(0, self.mid, self.trail)
    def rstrip(self, s=' '): return blank(s) and Text(Ite(self.mid == 0, 0, self.lead), self.mid, 0)
    def strip(self, s=' '): return blank(s) and Text(0, self.mid, 0)


def blank(s):
    if not s or s.strip(' '): unsupported(f'text operation with {s!r}')
    return len(s)


def span_of(c):
    T = c.mod('text.TextSpan').TextSpan
    chars = c.list('chars', ('obj', 'text.Char:Char'))
    lead, mid, trail = c.int('lead', 0), c.int('mid', 0), c.int('trail', 0)
    c.requires(Implies(mid == 0, trail == 0), eq(Len(chars), lead + mid + trail))
    s = c.raw(T, bbox=c.rect('b', nonempty=True), chars=chars, style=[], color=7, size=10.0, flags=3, _font='Arial', _parent=None)
    c.text = Text(lead, mid, trail)
    return s, chars.copy(), lead, mid, trail


BL = {'text.TextSpan:TextSpan.cal_bbox': cover_, 'text.TextSpan:TextSpan.text': lambda ctx: lambda self: ctx.text}


@contract('C08', 'text.TextSpan:TextSpan.lstrip', n=0, stubs=BL, assumes=['TextSpan.text joins the characters of the span; blanks are spaces'])
def lstrip(c):
    s, src, lead, mid, trail = span_of(c)
    r = c.call(s.lstrip)
    k = Ite(lead >= 2, lead - 1, 0)
    c.ensures('redundant leading blanks go, one remains, nothing else changes', And(eq(Len(s.chars), Len(src) - k), forall(0, Len(src) - k, lambda j: same(at(s.chars, j), at(src, j + k)))))
    c.ensures('reports whether blanks were removed', Iff(r, lead >= 2))


@contract('C08', 'text.TextSpan:TextSpan.rstrip', n=0, stubs=BL, assumes=['TextSpan.text joins the characters of the span; blanks are spaces'])
def rstrip(c):
    s, src, lead, mid, trail = span_of(c)
    r = c.call(s.rstrip)
    t = Ite(mid == 0, lead, trail)
    k = Ite(t >= 2, t - 1, 0)
    c.ensures('redundant trailing blanks go, one remains, nothing else changes', And(eq(Len(s.chars), Len(src) - k), forall(0, Len(src) - k, lambda j: same(at(s.chars, j), at(src, j)))))
    c.ensures('reports whether blanks were removed', Iff(r, t >= 2))


def stripped(name):
    def factory(ctx):
        def stub(self):
            ctx.log.append((name, self))
            return ctx.bool(name)
        return stub
    return factory


@contract('C08', 'text.Spans:Spans.strip', n=0, stubs={'text.TextSpan:TextSpan.lstrip': stripped('left'), 'text.TextSpan:TextSpan.rstrip': stripped('right')})
def strip_line(c):
    T, I, L, Sp = c.mod('text.TextSpan').TextSpan, c.mod('image.ImageSpan').ImageSpan, c.mod('text.Line').Line, c.mod('text.Spans').Spans
    c.log = []
    k = c.choice('spans', [0, 1, 2, 3])
    spans = [c.raw(c.choice(f'kind{i}', [T, I]), bbox=c.rect(f's{i}', nonempty=True)) for i in range(k)]
    line = c.raw(L, bbox=c.rect('line', nonempty=True))
    x = c.raw(Sp, _instances=list(spans), _parent=line)
    c.call(x.strip)
    want = []
    if k and isinstance(spans[0], T): want.append(('left', spans[0]))
    if k and isinstance(spans[-1], T): want.append(('right', spans[-1]))
    c.ensures('the first span is stripped on the left, the last one on the right, images and others are not touched', len(c.log) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(c.log, want)))


# ------------------------------------------------ marks over blocks, lines and spans
def parts_of(ctx):
    def stub(self, rect, horizontal=True):
        ctx.log.append((self, rect, horizontal))
        self.parts = [ctx.raw(ctx.mod('text.TextSpan').TextSpan, bbox=self.bbox) for _ in range(2)]
        return list(self.parts)
    return stub


@contract('C08', 'text.Lines:Lines.parse_text_format', n=0, stubs={'text.TextSpan:TextSpan.split': parts_of, 'common.Element:Element.union_bbox': lambda ctx: (lambda self, e: self)}, within='up to 2 lines of up to 2 spans, texts and pictures')
def marked_lines(c):
    """every line the mark meets is divided by it, wherever the line is; its pictures, and all other lines, stay"""
    T, I, L, Ls = c.mod('text.TextSpan').TextSpan, c.mod('image.ImageSpan').ImageSpan, c.mod('text.Line').Line, c.mod('text.Lines').Lines
    upright(c)
    c.log = []
    hor = c.choice('horizontal', [True, False])
    mark = c.raw(c.mod('shape.Shape').Shape, bbox=c.rect('mark', nonempty=True))
    lines = c.call(Ls)
    old = []
    for k in range(c.choice('lines', [0, 1, 2])):
        l = c.call(L)
        l.dir = [1.0, 0.0] if hor else [0.0, -1.0]
        spans = [c.raw(t, bbox=c.rect(f's{k}{i}', nonempty=True)) for i, t in enumerate(c.choice(f'spans {k}', [[T], [I], [T, I], [T, T]] if k == 0 else [[T], [I, T]]))]
        for s in spans: l.spans._instances.append(s)
        l.bbox = c.rect(f'line {k}', nonempty=True)
        lines._instances.append(l)
        old.append((l, spans))
    r = c.call(lines.parse_text_format, mark)
    c.ensures('the lines are the same', list(lines) == [l for l, _ in old])
    c.ensures('divided by this mark, in the direction of the text, once', all(m is mark and h == hor for _, m, h in c.log) and all(sum(q is s for s, _, _ in c.log) <= 1 for q in [s for _, ss in old for s in ss]))
    some = []
    for k, (l, ss) in enumerate(old):
        a, b = l.bbox, mark.bbox
        meets = And(Max(a.x0, b.x0) < Min(a.x1, b.x1), Max(a.y0, b.y0) < Min(a.y1, b.y1))
        want, cut = [], []
        for s in ss:
            done = any(q is s for q, _, _ in c.log)
            if isinstance(s, T): cut.append(done)
            want += s.parts if done else [s]
        c.ensures(f'a line the mark meets is divided', Implies(meets, all(cut)))
        c.ensures(f'the spans of a line are the parts of its spans, in order', len(list(l.spans)) == len(want) and all(p is q for p, q in zip(l.spans, want)))
        if cut: some.append(meets)
    c.ensures('reports whether the mark may be a style', Implies(Or(some or [False]), eq(bool(r), True)))


def applied(ctx):
    def stub(self, rect):
        ctx.log.append((self, rect))
        return ctx.bool('style')
    return stub


@contract('C08', 'text.TextBlock:TextBlock.parse_text_format', n=0, stubs={'text.Lines:Lines.parse_text_format': applied}, within='up to 2 marks')
def marked_block(c):
    """marks that are links or not determined and meet the paragraph are applied to its lines, in order; others are not"""
    T, K = c.mod('text.TextBlock').TextBlock, c.mod('common.share').RectType
    S, H = c.mod('shape.Shape').Shape, c.mod('shape.Shape').Hyperlink
    upright(c)
    c.log = []
    b = c.call(T)
    b.bbox = c.rect('block', nonempty=True)
    marks = [c.raw(H if t is K.HYPERLINK else S, bbox=c.rect(f'mark {i}', nonempty=True), type=t) for i in range(c.choice('marks', [0, 1, 2])) for t in [c.choice(f'type {i}', [K.HYPERLINK, K.UNDEFINED, K.BORDER, K.UNDERLINE])]]
    c.call(b.parse_text_format, list(marks))
    done = [m for _, m in c.log]
    c.ensures('on the lines of this paragraph', all(l is b.lines for l, _ in c.log))
    c.ensures('each mark once, in order', [id(m) for m in done] == [id(m) for m in marks if any(m is q for q in done)])
    for m in marks:
        x, y = m.bbox, b.bbox
        meets = And(Max(x.x0, y.x0) < Min(x.x1, y.x1), Max(x.y0, y.y0) < Min(x.y1, y.y1))
        hit = any(m is q for q in done)
        if m.type in (K.HYPERLINK, K.UNDEFINED): c.ensures('a mark that meets the paragraph is applied', Implies(meets, hit))
        else: c.ensures('a border of a table, or the mark of another paragraph, is not', not hit)
