"""C05/C06: ruled tables keep rows, columns, merged cells, borders, shading and contents"""
import os
from .lib import *
from .pdfs import *
from pdf2docx import Converter
RULE = 'one case = one ruled table (lattice, merged ranges, line styles, shading, contents)'
PARTS = ['grids', 'nested', 'turned']


class Grid:
    """a ruled table: lattice, partition into ranges, border style of every segment, shading and text of every range"""
    def __init__(self, rng, x0, y0, merge=None, sizes=(1, 2, 2, 3, 3, 4, 5), cw=(45, 90), rh=(26, 50), narrow=False):
        self.nr, self.nc = rng.choice(sizes), rng.choice(sizes)
        if self.nr * self.nc == 1: self.nc = 2
        g = rng.choice([1, 1, .1, .01])
        q = lambda v: round(v / g) * g
        self.xs, self.ys = [q(x0)], [q(y0)]
        for _ in range(self.nc): self.xs.append(q(self.xs[-1] + rng.uniform(*cw)))
        for _ in range(self.nr): self.ys.append(q(self.ys[-1] + rng.uniform(*rh)))
        self.owner = {(i, j): (i, j) for i in range(self.nr) for j in range(self.nc)}
        self.span = {k: (1, 1) for k in self.owner}
        if merge is None: merge = rng.choice([0, 0, 1, 2, 4])
        for _ in range(merge):
            i, j = rng.randrange(self.nr), rng.randrange(self.nc)
            a, b = rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 2, 3])
            cells = [(m, n) for m in range(i, min(i + a, self.nr)) for n in range(j, min(j + b, self.nc))]
            if any(self.span.get(c) != (1, 1) for c in cells): continue
            for c in cells: self.owner[c] = (i, j); self.span.pop(c)
            self.span[i, j] = (min(i + a, self.nr) - i, min(j + b, self.nc) - j)
        # every lattice line must still be drawn somewhere, else it is no row or column
        for i in range(1, self.nr):
            if all(self.owner[i - 1, n] == self.owner[i, n] for n in range(self.nc)): return self.__init__(rng, x0, y0, merge, sizes, cw, rh, narrow)
        for j in range(1, self.nc):
            if all(self.owner[m, j - 1] == self.owner[m, j] for m in range(self.nr)): return self.__init__(rng, x0, y0, merge, sizes, cw, rh, narrow)
        self.style = rng.choice(['one', 'one', 'line', 'outer'])
        ws, cs = [0, .1, .25, .5, .5, 1, 1.5, 2, 3, 4], COLORS
        one = (rng.choice(ws), rng.choice(cs))
        two = (rng.choice(ws), rng.choice(cs))
        def pick(k, last): return one if self.style == 'one' else (rng.choice(ws), rng.choice(cs)) if self.style == 'line' else two if k in (0, last) else one
        self.h = [pick(k, self.nr) for k in range(self.nr + 1)]
        self.v = [pick(k, self.nc) for k in range(self.nc + 1)]
        used = {c for _, c in self.h + self.v}      # shading in the colour of a border is not told from it
        self.fill = {k: rng.choice([f for f in FILLS + [(0, 0, 0), (1, 1, 254 / 255), (.98, 1, 1)] if tuple(f) not in used]) for k in self.span if rng.random() < .25}
        self.text = {k: [word(rng, rng.randint(2, 4)) for _ in range(rng.choice([1, 1, 2]))] for k in self.span if rng.random() < .8}
        self.how = rng.choice(['lines', 'lines', 'segments', 'segments', 'rects', 'rectsegments', 'boxes', 'path'])
        self.order = rng.random()
        self.seg = {}           # (horizontal, lattice index, unit) -> style where it differs from that of the lattice line
        if self.how.endswith('segments') and rng.random() < .6:
            free = [c for c in COLORS if tuple(c) not in {tuple(f) for f in self.fill.values()}]
            for hor, n, m in ((True, self.nr, self.nc), (False, self.nc, self.nr)):
                for i in range(n + 1):
                    for j in range(m):
                        if rng.random() < .5: self.seg[hor, i, j] = (rng.choice(ws), rng.choice(free))
        if self.how in ('boxes', 'path'): self.style = 'one'; self.h = [one] * (self.nr + 1); self.v = [one] * (self.nc + 1); self.fill = {k: v for k, v in self.fill.items() if v != one[1]}
        if self.how.startswith('rect'): self.h, self.v = [[(max(w, .25), c) for w, c in l] for l in (self.h, self.v)]; self.seg = {k: (max(w, .25), c) for k, (w, c) in self.seg.items()}
        self.thin = False       # widths are not known
        # sides of the table without border: where the lines across end, there is the side
        self.open = set(rng.choice([(), (), (), ('start',), ('end',), ('start', 'end'), ('top',), ('bottom',), ('top', 'bottom'), ('end', 'bottom')]))
        if any(v != (1, 1) for v in self.span.values()) or self.how == 'boxes': self.open = set()      # a line across a merged range may be cut off from the table
        if self.nc == 1: self.open -= {'start', 'end'}
        if self.nr == 1: self.open -= {'top', 'bottom'}
        if self.open & {'start', 'end'} and self.open & {'top', 'bottom'}: self.open &= {rng.choice(sorted(self.open))}
        # a narrow column or low row, e.g. as spacing; its cells are empty
        if narrow and not self.open and rng.random() < .3 and self.how != 'boxes' and max(w for w, _ in self.h + self.v + list(self.seg.values())) <= 1.5:
            at, k = rng.choice([(self.xs, 1), (self.ys, 0)])
            i = rng.randrange(1, len(at))
            d = at[i] - at[i - 1] - round(rng.uniform(4.2, 10), 1)
            at[i:] = [v - d for v in at[i:]]
            for c, n in self.span.items():
                if c[k] < i <= c[k] + n[k]: self.text.pop(c, None)
                if (c[k], n[k]) == (i - 1, 1): self.fill.pop(c, None)       # a thin area is a line

    def box(self, k):
        a, b = self.span[k]
        return self.xs[k[1]], self.ys[k[0]], self.xs[k[1] + b], self.ys[k[0] + a]

    def side(self, k, side):
        """style of a side of a range; None if it has several"""
        n = self.span[k]
        hor, first = side in ('top', 'bottom'), side in ('top', 'start')
        i = k[0 if hor else 1] + (0 if first else n[0 if hor else 1])
        j0, m = k[1 if hor else 0], n[1 if hor else 0]
        s = {self.seg.get((hor, i, j), (self.h if hor else self.v)[i]) for j in range(j0, j0 + m)}
        return s.pop() if len(s) == 1 else None

    def colours(self, k, side):
        n = self.span[k]
        hor, first = side in ('top', 'bottom'), side in ('top', 'start')
        i = k[0 if hor else 1] + (0 if first else n[0 if hor else 1])
        j0, m = k[1 if hor else 0], n[1 if hor else 0]
        return {self.seg.get((hor, i, j), (self.h if hor else self.v)[i])[1] for j in range(j0, j0 + m)}

    def runs(self):
        """[(horizontal, lattice index, start, end)] of the lines to draw"""
        out = []
        for hor, n, m in ((True, self.nr, self.nc), (False, self.nc, self.nr)):
            for i in range(n + 1):
                if {0: 'top' if hor else 'start', n: 'bottom' if hor else 'end'}.get(i) in self.open: continue
                on = [i in (0, n) or (self.owner[i - 1, j] != self.owner[i, j] if hor else self.owner[j, i - 1] != self.owner[j, i]) for j in range(m)]
                s = None
                for j in range(m + 1):
                    if j < m and on[j]:
                        if s is None: s = j
                        if self.how.endswith('segments'): out.append((hor, i, j, j + 1)); s = None
                    elif s is not None: out.append((hor, i, s, j)); s = None
        return out

    def draw(self, page, rng):
        for k, f in self.fill.items():
            if self.how != 'boxes': page.draw_rect(fitz.Rect(self.box(k)), color=None, fill=f)
        runs = self.runs()
        if self.how == 'boxes':
            (w, c), runs = self.h[0], []
            for k in sorted(self.span, key=lambda k: rng.random()) if self.order < .4 else self.span: page.draw_rect(fitz.Rect(self.box(k)), color=c, fill=self.fill.get(k), width=w or .001)
        if self.how == 'path':
            (w, c), s = self.h[0], page.new_shape()
            for hor, i, a, e in runs: s.draw_line(*(((self.xs[a], self.ys[i]), (self.xs[e], self.ys[i])) if hor else ((self.xs[i], self.ys[a]), (self.xs[i], self.ys[e]))))
            s.finish(color=c, width=w or .001, closePath=False); s.commit(); runs = []
        if self.order < .4: rng.shuffle(runs)
        for hor, i, s, e in runs:
            w, c = self.seg.get((hor, i, s), (self.h if hor else self.v)[i])
            if hor: p, q = (self.xs[s], self.ys[i]), (self.xs[e], self.ys[i])
            else: p, q = (self.xs[i], self.ys[s]), (self.xs[i], self.ys[e])
            if self.how.startswith('rect'):
                page.draw_rect(fitz.Rect(p[0] - (0 if hor else w / 2), p[1] - (w / 2 if hor else 0), q[0] + (0 if hor else w / 2), q[1] + (w / 2 if hor else 0)), color=None, fill=c)
            else: page.draw_line(p, q, color=c, width=w or .001)        # PyMuPDF takes 0 as 'unset'
        for k, ws in self.text.items():
            x0, y0, x1, y1 = self.box(k)
            page.insert_text((x0 + 5, y0 + 15), ' '.join(ws), fontsize=8)
        page = getattr(page, 'page', page)
        for xref in page.get_contents():
            raw = page.parent.xref_stream(xref)
            if b'0.001 w' in raw: page.parent.update_stream(xref, raw.replace(b'0.001 w', b'0 w'))


def rgb(c): return tuple(int(c[i:i + 2], 16) for i in (0, 2, 4))


class Tbl:
    """a docx table: text, span, borders, shading, width of every range"""
    def __init__(self, t):
        self.heights, self.rules = [], []
        rows = []
        for tr in t.findall(W + 'tr'):
            h = tr.find(f'{W}trPr/{W}trHeight')
            self.heights.append(int(h.get(W + 'val')) / 20 if h is not None else None)
            self.rules.append(h.get(W + 'hRule') if h is not None else None)
            j, row = 0, []
            for tc in tr.findall(W + 'tc'):
                pr = tc.find(W + 'tcPr')
                g = pr.find(W + 'gridSpan')
                n = int(g.get(W + 'val')) if g is not None else 1
                vm = pr.find(W + 'vMerge')
                row.append((j, n, 'cont' if vm is not None and vm.get(W + 'val') in (None, 'continue') else 'start' if vm is not None else None, tc, pr))
                j += n
            rows.append((j, row))
        self.nr, self.widths = len(rows), {j for j, _ in rows}
        self.nc = max(self.widths, default=0)
        self.grid = len(t.findall(f'{W}tblGrid/{W}gridCol'))
        ind = t.find(f'{W}tblPr/{W}tblInd')
        self.indent = float(ind.get(W + 'w')) / 20 if ind is not None else 0
        self.span, self.cells = {}, {}
        for i, (_, row) in enumerate(rows):
            for j, n, vm, tc, pr in row:
                if vm == 'cont':
                    o = next((k for k in sorted(self.span, reverse=True) if k[1] == j and k[0] < i and self.span[k][1] == n and k[0] + self.span[k][0] == i), None)
                    if o is not None: self.span[o] = (self.span[o][0] + 1, n); self.cells[o].append((tc, pr)); continue
                self.span[i, j] = (1, n); self.cells[i, j] = [(tc, pr)]

    def ruled(self): return any(self.border(k, s) for k in self.span for s in ('top', 'bottom', 'start', 'end'))
    def text(self, k): return ''.join(''.join(text_of(tc)) for tc, _ in self.cells[k]).split()
    def own_text(self, k): return ''.join(text_of(self.cells[k][0][0])).split()
    def fill(self, k):
        s = self.cells[k][0][1].find(W + 'shd')
        return s.get(W + 'fill') if s is not None else None
    def width(self, k):
        w = self.cells[k][0][1].find(W + 'tcW')
        return int(w.get(W + 'w')) / 20 if w is not None else None
    def border(self, k, side):
        """(width, colour) of the side of a range; the last cell of the range has its bottom"""
        tc, pr = self.cells[k][-1 if side == 'bottom' else 0]
        b = pr.find(f'{W}tcBorders/{W}{side}')
        return None if b is None or b.get(W + 'val') in (None, 'nil', 'none') else (float(b.get(W + 'sz')) / 8, rgb(b.get(W + 'color').lstrip('#')))


def compare(x, g, t, left, part, info, last=False, inner=None):
    """last: the table ends the page; its last row gives 1 pt to the paragraph every document needs after a table"""
    ck = lambda c, key, label, **i: x.check(c, f'{part}-{key}', label, **{**i, **info})
    if not ck(t.nr == g.nr and t.nc == g.nc and len(t.widths) == 1 and t.grid == g.nc, 'lattice', 'the table has the rows and columns drawn', got=(t.nr, t.nc, t.grid), want=(g.nr, g.nc)): return
    if not ck(t.span == g.span, 'spans', 'the ranges drawn as one cell are one merged cell, the others separate cells', got=sorted(t.span.items()), want=sorted(g.span.items())): return
    for i, h in enumerate(t.heights):
        dh = h - (g.ys[i + 1] - g.ys[i]) if h is not None else 0
        ck(h is not None and (-.35 - (1.05 if last and i == g.nr - 1 else 0)) <= dh <= .35 and t.rules[i] == 'exact', 'height', 'every row is exactly as high as drawn', row=i, got=h, rule=t.rules[i], want=round(g.ys[i + 1] - g.ys[i], 2))
    if left is not None: ck(abs(t.indent - (g.xs[0] - left)) <= max(.35, 0), 'indent', 'the left border is where it is drawn', got=t.indent, want=round(g.xs[0] - left, 2))
    for k in g.span:
        b = g.box(k)
        ck(t.width(k) is not None and abs(t.width(k) - (b[2] - b[0])) <= .35, 'width', 'every cell is as wide as drawn', cell=k, got=t.width(k), want=round(b[2] - b[0], 2))
        if k != inner: ck(t.text(k) == g.text.get(k, []) == t.own_text(k), 'text', 'every cell contains the text displayed in it', cell=k, got=t.text(k), want=g.text.get(k, []))
        f = t.fill(k)
        want = g.fill.get(k)
        ck((f is None) == (want is None) and (f is None or all(abs(p - q * 255) <= 1.5 for p, q in zip(rgb(f), want))), 'shading', 'every cell has the shading drawn', cell=k, got=f, want=want)
        n = g.span[k]
        for side in ('top', 'bottom', 'start', 'end'):
            s = t.border(k, side)
            if side in g.open and {'top': k[0] == 0, 'bottom': k[0] + n[0] == g.nr, 'start': k[1] == 0, 'end': k[1] + n[1] == g.nc}[side]:
                ck(s is None, 'open', 'a side without border has none', cell=k, side=side, got=s)
                continue
            if g.side(k, side) is None:         # several styles along a merged cell: those of its neighbours
                ck(s is None or len(g.colours(k, side)) == 1, 'mixed', 'a side of a merged cell in several colours leaves them to the cells next to it', cell=k, side=side, got=s)
                continue
            w, c = g.side(k, side)
            if g.how == 'boxes' and not g.thin and s is not None and abs(s[0] - 2 * max(w, .25)) <= .13 and abs(s[0] - max(w, .25)) > .13:
                x.check(False, 'rect-border-twice', 'the border of a stroked rectangle has the width drawn', cell=k, side=side, got=s[0], want=w)
                w = s[0]
            ck(s is not None and (g.thin or abs(s[0] - max(w, .25)) <= .13) and all(abs(p - q * 255) <= 1.5 for p, q in zip(s[1], c)), 'border', 'every border has the width and colour drawn', cell=k, side=side, got=s, want=(w, [round(v * 255) for v in c]))


def grids(x):
    """generated ruled tables: the tables of the document are those of the page"""
    rng = x.rng('grids')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(240 * x.n):
            if x.left() < 0: break
            doc = fitz.open()
            page = Turned(doc, 595, 842, rng.choice([0, 0, 0, 0, 90, 270]))
            y, gs = rng.choice([60, 72.5, 100]), []
            page.insert_text((60, y), 'before ' + sentence(rng, 3), fontsize=10)
            y += 25
            while True:
                g = Grid(rng, rng.choice([60, 72, 80.3, 100]), y, narrow=True)
                if g.ys[-1] > 780 or g.xs[-1] > 580: break
                g.draw(page, rng); gs.append(g)
                y = g.ys[-1] + rng.choice([20, 40, 60])
                if rng.random() < .5 and y < 700: page.insert_text((60, y), sentence(rng, 4), fontsize=10); y += 25
                if rng.random() < .4: break
            if not gs: continue
            doc.save(f('g.pdf')); doc.close()
            with quiet(): cv = Converter(f('g.pdf')); cv.convert(f('g.docx')); out = cv.extract_tables() if k % 2 else None; cv.close()
            d = Docx(f('g.docx'))
            ts = [t for t in map(Tbl, d.body.iter(W + 'tbl')) if t.ruled()]
            info = dict(tables=[(g.nr, g.nc, g.how, g.style, sorted(g.open), [round(v, 2) for v in g.xs], [round(v, 2) for v in g.ys], sorted((k, v) for k, v in g.span.items() if v != (1, 1))) for g in gs])
            x.case('page', (k,), info)
            if not x.check(len(ts) == len(gs), 'number', 'every ruled table is a table', got=len(ts), want=len(gs), **info): continue
            left = int(d.sections()[0][0].find(W + 'pgMar').get(W + 'left')) / 20
            for n, (g, t) in enumerate(zip(gs, ts)): compare(x, g, t, left, 'grid', info, last=n == len(gs) - 1)
            if out is None or len([t for t in map(Tbl, d.body.findall(W + 'tbl')) if t.ruled()]) != len(gs): continue        # tables within a page laid out as a table are not extracted (documented)
            got = [[[None if v is None else v.split() for v in r] for r in t] for t in out]
            for g in gs:
                want = [[g.text.get((i, j), []) if (i, j) in g.span else None for j in range(g.nc)] for i in range(g.nr)]
                x.check(want in got, 'grid-extract', 'an extracted table has the texts of its cells', got=got, want=want, **info)


def nested(x):
    """a ruled table inside a cell of a ruled table"""
    rng = x.rng('nested')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(40 * x.n):
            if x.left() < 0: break
            doc = fitz.open()
            page = Turned(doc, 595, 842, rng.choice([0, 0, 90]))
            g = Grid(rng, 72, 80, sizes=(1, 2), cw=(170, 230), rh=(150, 200), merge=0)
            c = rng.choice(sorted(g.span))
            b = g.box(c)
            g.text.pop(c, None); g.fill.pop(c, None)
            i = Grid(rng, b[0] + rng.uniform(14, 25), b[1] + rng.uniform(14, 25), sizes=(1, 2, 3), cw=(35, 42), rh=(22, 34), merge=rng.choice([0, 0, 1]))
            i.text = {c: ws[:1] for c, ws in i.text.items()}
            page.insert_text((60, 50), 'before ' + sentence(rng, 3), fontsize=10)
            g.draw(page, rng); i.draw(page, rng)
            doc.save(f('g.pdf')); doc.close()
            convert(f('g.pdf'), f('g.docx'))
            d = Docx(f('g.docx'))
            info = dict(tables=[(g.nr, g.nc, g.how, g.style, sorted(g.open), [round(v, 2) for v in g.xs], [round(v, 2) for v in g.ys], sorted((k, v) for k, v in g.span.items() if v != (1, 1))) for g in (g, i)], cell=c)
            x.case('page', (k,), info)
            ts = [t for t in map(Tbl, d.body.iter(W + 'tbl')) if t.ruled()]
            if not x.check(len(ts) == 2, 'nested-number', 'every ruled table is a table', got=len(ts), **info): continue
            left = int(d.sections()[0][0].find(W + 'pgMar').get(W + 'left')) / 20
            compare(x, g, ts[0], left, 'nested', info, last=True, inner=c)
            compare(x, i, ts[1], None, 'nested', info, last=True)
            x.check(c in ts[0].cells and ts[1].text((0, 0)) is not None and any(t.tag == W + 'tbl' for tc, _ in ts[0].cells[c] for t in tc.iter()), 'nested-cell', 'the inner table is inside its cell', **info)


def turned(x):
    """tables on pages stored turned: the width of lines is not known there"""
    rng = x.rng('turned')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(60 * x.n):
            if x.left() < 0: break
            doc = fitz.open(); page = doc.new_page(width=595, height=842)
            page.insert_text((60, 60), 'before ' + sentence(rng, 3), fontsize=10)
            g = Grid(rng, rng.choice([60, 72, 80.3]), 85, narrow=True)
            g.draw(page, rng)
            deg = rng.choice([90, 180, 270])
            g.thin = deg != 180 and not g.how.startswith('rect')
            turn(doc, page, deg)
            doc.save(f('t.pdf')); doc.close()
            shift_some(f('t.pdf'), rng, .4)
            convert(f('t.pdf'), f('t.docx'))
            d = Docx(f('t.docx'))
            info = dict(rotation=deg, tables=[(g.nr, g.nc, g.how, g.style, sorted(g.open), [round(v, 2) for v in g.xs], [round(v, 2) for v in g.ys], sorted((k, v) for k, v in g.span.items() if v != (1, 1)))])
            x.case('page', (k,), info)
            ts = [t for t in map(Tbl, d.body.iter(W + 'tbl')) if t.ruled()]
            if not x.check(len(ts) == 1, 'turned-number', 'every ruled table is a table', got=len(ts), want=1, **info): continue
            compare(x, g, ts[0], None, 'turned', info, last=True)
