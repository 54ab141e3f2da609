"""C11: vertical position of paragraphs, tables and rows"""
import os
from .lib import *
from .pdfs import *
from .c05 import Grid
from .c19 import LONG
RULE = 'one case = one page (sequence of paragraphs and tables with their sizes, leadings and gaps, cells and columns)'
PARTS = ['flow', 'columns', 'cells', 'tables', 'rich_pages']


def boxes_of(page, axis=1):
    """extents of the words of a page, and of the blanks next to them, as displayed, in the direction of the rows"""
    m, words = page.rotation_matrix, {}
    for b in page.get_text('rawdict')['blocks']:
        for l in b.get('lines', []):
            chars = [(c['c'], fitz.Rect(c['bbox']) * m) for s in l['spans'] for c in s['chars']]
            out, k = [], 0
            while k < len(chars):
                j = k
                while j < len(chars) and chars[j][0].isspace() == chars[k][0].isspace(): j += 1
                out.append([''.join(c for c, _ in chars[k:j]).strip(), min(r[axis] for _, r in chars[k:j]), max(r[axis + 2] for _, r in chars[k:j])])
                k = j
            for k, (t, y0, y1) in enumerate(out):
                if not t: continue
                near = [o for o in out[max(0, k - 1):k + 2] if not o[0] or o[0] == t]
                words.setdefault(t, []).append((min(o[1] for o in near), max(o[2] for o in near)))
    return words


def words_in(e):
    return ''.join((t.text or '') if t.tag == W + 't' else ' ' for t in e.iter(W + 't', W + 'tab', W + 'br')).split()


def attr(e, path, name, default=None):
    e = e.find(path)
    return default if e is None or e.get(W + name) is None else float(e.get(W + name))


class Flow:
    """positions of the paragraphs, tables and rows that follow from heights and spaces in the document"""
    def __init__(self, words):
        self.words, self.pars, self.tables, self.bad = words, [], [], []
    def rows(self, ws):
        """extents of the rows these words are in (None if a word is not unique on the page)"""
        out = []
        for w in ws:
            if len(self.words.get(w, ())) != 1: continue
            a, b = self.words[w][0]
            for r in out:
                if (a + b) / 2 <= r[1] and (r[0] + r[1]) / 2 <= b and (a + b) / 2 >= r[0] and (r[0] + r[1]) / 2 >= a: r[0], r[1] = min(a, r[0]), max(b, r[1]); break
            else: out.append([a, b])
        return out
    def run(self, es, y, slack=0.0):
        """y: position reached so far; slack: rounding errors so far"""
        for k, e in enumerate(es):
            if e.tag == W + 'p':
                sp = f'{W}pPr/{W}spacing'
                before, after = attr(e, sp, 'before', 0) / 20, attr(e, sp, 'after', 0) / 20
                line = attr(e, sp, 'line')
                exact = e.find(sp) is not None and e.find(sp).get(W + 'lineRule') == 'exact'
                if before < 0 or after < 0 or (line is not None and line < 0): self.bad.append(('negative', before, after, line))
                ws = words_in(e)
                if ws:
                    rows = self.rows(ws)
                    n = len(rows)
                    if not exact: 
                        pics = [int(i.find(WP + 'extent').get('cy')) / 12700 for i in e.iter(WP + 'inline')]
                        if not pics: self.bad.append(('no exact line height', ws)); return None
                        y = max(r[1] for r in rows); slack = 2; continue
                    start = y
                    y += before + n * line / 20
                    slack += .06 + n * .06
                    self.pars.append((ws, y, rows, line / 20, slack, before > 0 or not rows or min(r[0] for r in rows) >= start + line / 20 - max(r[1] - r[0] for r in rows)))
                    y += after
                else:
                    pics = [int(i.find(WP + 'extent').get('cy')) / 12700 for i in e.iter(WP + 'inline')]
                    if pics: y += before + max(pics) + after; slack += .2
                    elif e.find(f'{W}pPr/{W}sectPr') is not None: continue
                    elif exact: y += before + line / 20 + after; slack += .12
            elif e.tag == W + 'tbl':
                rows = e.findall(W + 'tr')
                tc = rows[0].find(W + 'tc')
                dw = attr(tc, f'{W}tcPr/{W}tcBorders/{W}top', 'sz', 0) / 16
                y0 = y
                y += dw
                tops = [y]
                slack += .8 if k == 0 or es[k - 1].tag == W + 'p' and not words_in(es[k - 1]) else .1
                for r in rows:
                    h = attr(r, f'{W}trPr/{W}trHeight', 'val', 0) / 20
                    if h <= 0: self.bad.append(('row height', h))
                    for c in r.findall(W + 'tc'):
                        m = c.find(f'{W}tcPr/{W}vMerge')
                        if m is not None and m.get(W + 'val') != 'restart': continue
                        if c.find(f'{W}tcPr/{W}textDirection') is not None: continue
                        w = attr(c, f'{W}tcPr/{W}tcBorders/{W}top', 'sz', 0) / 16
                        self.run([x for x in c if x.tag in (W + 'p', W + 'tbl')], y + w, slack + .2)
                    y += h
                    slack += .06
                    tops.append(y)
                self.tables.append((e, tops, slack))
                y += dw
        self.end, self.slack = y, slack
        return y


def judge(x, part, page, sec, es, info, rows=True):
    f = Flow(boxes_of(page))
    top = attr(sec, W + 'pgMar', 'top') / 20
    bottom, height = attr(sec, W + 'pgMar', 'bottom') / 20, attr(sec, W + 'pgSz', 'h') / 20
    end = f.run(es, top, .06)
    x.check(not f.bad, f'{part}-negative', 'no space, line height or row height is negative', bad=f.bad, **info)
    for ws, y, rows, ls, slack, free in f.pars if rows else []:
        want = max(r[1] for r in rows) if rows else None
        if want is None: continue
        x.check(abs(y - want) <= slack + .1, f'{part}-bottom', 'the last row of a paragraph ends where it is drawn', words=ws[:6], got=y, want=want, slack=slack, **info)
        if free:
            rows = sorted(rows)
            gaps = [b[1] - a[1] for a, b in zip(rows, rows[1:])]
            if gaps and max(gaps) - min(gaps) < .1 and max(r[1] - r[0] for r in rows) - min(r[1] - r[0] for r in rows) < .1:
                for k, r in enumerate(rows):
                    got = y - (len(rows) - 1 - k) * ls
                    x.check(abs(got - r[1]) <= slack + .1, f'{part}-rows', 'evenly spaced rows of a paragraph are where they are drawn', words=ws[:6], row=k, of=len(rows), got=got, want=r[1], slack=slack, line=ls, **info)
    if end is not None: x.check(f.end <= height - bottom + f.slack + .1, f'{part}-fits', 'the content fits on the page', end=f.end, limit=height - bottom, **info)
    return f


class Toks:
    """words that occur once on a page"""
    def __init__(self, rng): self.rng, self.n = rng, 0
    def row(self, width, fs, font='helv'):
        out = []
        while True:
            self.n += 1
            w = word(self.rng, self.rng.randint(1, 6)) + str(self.n)
            if out and fitz.get_text_length(' '.join(out + [w]), font, fs) > width: return ' '.join(out)
            out.append(w)


def put(p, rows, fs, font='helv'):
    """rows (x, y, text) of one paragraph"""
    from .c12 import put as f
    f(p, rows, fs, font)


def paragraphs(p, rng, t, x, y, w, limit):
    """one paragraph at y; returns its bottom and a description"""
    fs = rng.choice([8, 9, 10, 11, 12, 14, 16, 20])
    n = rng.choice([1, 1, 2, 3, 4, 7])
    lead = fs * rng.choice([1.05, 1.2, 1.35, 1.6, 2.2])
    jitter = rng.random() < .2
    rows, yy = [], y + fs
    for k in range(n):
        if yy + fs * .4 > limit: break
        rows.append((x + (12 if k == 0 and rng.random() < .2 else 0), yy, t.row(w * (rng.uniform(.3, 1) if k == n - 1 else 1) - 14, fs)))
        yy += lead + (rng.choice([0, 1, 2]) if jitter else 0)
    if not rows: return y, ()
    put(p, rows, fs)
    bottom = rows[-1][1] + .4 * fs
    if len(rows) > 1 and rng.random() < .4:       # something larger or smaller in the last row
        ww = max(fitz.get_text_length(r[2], 'helv', fs) for r in rows)
        f2 = rng.choice([6, fs, 1.5 * fs])
        s = t.row(30, f2)
        if x + ww + 40 + fitz.get_text_length(s, 'helv', f2) < x + w:
            yl = rows[-1][1] + rng.choice([0, 0, 2, -2])
            p.insert_text((x + ww + 20, yl), s, fontsize=f2); bottom = max(bottom, yl + .4 * f2)
    return bottom, (fs, len(rows), round(lead, 2))


def page_of(rng, t, p, x=60, w=470, y=50, limit=760, tables=True):
    """a column of paragraphs and tables"""
    desc = []
    first = True
    while y < limit - 20:
        if tables and rng.random() < .3:
            g = Grid(rng, round(x + 10), round(y), merge=0, sizes=(1, 2, 2, 3), cw=(60, 90), rh=(24, 60))
            if g.ys[-1] > limit: break
            g.open, g.fill = set(), {}
            g.text = {c: [t.row(12, 8)] for c in g.span}
            g.draw(p, rng)
            desc.append(('t', g.nr, g.nc, round(y))); y = g.ys[-1] + max(g.h[-1][0], 1)
        else:
            b, d = paragraphs(p, rng, t, x, y, w, limit)
            if not d: break
            desc.append(('p', round(y, 1)) + d); y = b
        y += rng.choice([1, 3, 8, 15, 30, 77.7])
        first = False
        if rng.random() < .08: break
    return desc, y


def check_pdf(x, part, f, doc, info, rows=True):
    doc.save(f('v.pdf')); doc.close()
    convert(f('v.pdf'), f('v.docx'))
    d, src = Docx(f('v.docx')), fitz.open(f('v.pdf'))
    secs = d.sections()
    if not x.check(len(secs) == len(src), f'{part}-sections', 'every page is a section', got=len(secs), **info): return []
    return [judge(x, part, p, s, es, info, rows) for p, (s, es) in zip(src, secs)]


def flow(x):
    """pages with paragraphs and tables one below the other"""
    rng = x.rng('flow')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(120 * x.n):
            if x.left() < 0: break
            doc, t = fitz.open(), Toks(rng)
            w, h = rng.choice([(595, 842), (612, 792), (842, 595)])
            deg = rng.choice([0, 0, 0, 90, 180, 270])
            p = doc.new_page(width=w, height=h)
            full = rng.random() < .25         # only rows that cross the centre
            desc, y = page_of(rng, t, p, x=50, w=w - 100, y=rng.choice([20, 36, 50, 72, 100]), limit=h - rng.choice([20, 40, 60, 200]), tables=not full)
            if not full:
                # keep the page in one column
                put(p, [(50, y + 12, t.row(w - 110, 10))], 10) if y + 20 < h - 10 else None
            info = dict(page=desc, size=(w, h), full=full, rotation=deg)
            if deg: turn(doc, p, deg)
            x.case('flow', (k,), info)
            for fl in check_pdf(x, 'flow', f, doc, info): x.check(len(fl.pars) > 0, 'flow-some', 'the paragraphs are in the document', **info)


def columns(x):
    """two columns, and text above and below them"""
    rng = x.rng('columns')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(60 * x.n):
            if x.left() < 0: break
            doc, t = fitz.open(), Toks(rng)
            p = doc.new_page(width=595, height=842)
            y = rng.choice([40, 60])
            if rng.random() < .7: put(p, [(60, y, t.row(460, 11))], 11); y += 25
            limit = rng.choice([500, 700])
            d1, y1 = page_of(rng, t, p, 50, 225, y, limit, False)
            d2, y2 = page_of(rng, t, p, 320, 225, y, limit, False)
            y = max(y1, y2) + 15
            if rng.random() < .7: put(p, [(60, y + 15, t.row(460, 11))], 11)
            info = dict(left=d1, right=d2)
            x.case('columns', (k,), info)
            check_pdf(x, 'columns', f, doc, info)


def cells(x):
    """paragraphs and tables in the cells of a table"""
    rng = x.rng('cells')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(80 * x.n):
            if x.left() < 0: break
            doc, t = fitz.open(), Toks(rng)
            p = doc.new_page(width=595, height=842)
            p.insert_text((72, 50), t.row(40, 11), fontsize=11); put(p, [(60, 80, t.row(460, 11))], 11)
            y0 = 100 + rng.choice([0, 10, 33.3])
            X, Y, lw = [60, rng.choice([240, 300]), 540], [y0, y0 + 250, y0 + rng.choice([400, 500])], rng.choice([.5, 1, 2, 4])
            for a in X: p.draw_line((a, Y[0]), (a, Y[-1]), width=lw)
            for b in Y: p.draw_line((X[0], b), (X[-1], b), width=lw)
            desc = []
            for r in range(2):
                for c in range(2):
                    dd, _ = page_of(rng, t, p, X[c] + 6, X[c + 1] - X[c] - 12, Y[r] + lw / 2 + rng.choice([2, 10, 40]), Y[r + 1] - 8, False)
                    desc.append(dd)
            p.insert_text((72, Y[-1] + 40), t.row(40, 11), fontsize=11)
            info = dict(cells=desc, width=lw, rows=Y)
            x.case('cells', (k,), info)
            for fl in check_pdf(x, 'cells', f, doc, info):
                x.check(len(fl.tables) >= 1, 'cells-table', 'the table is a table', **info)
                for e, tops, slack in fl.tables[-1:]:
                    for got, want in zip(tops, Y): x.check(abs(got - want) <= slack + .2, 'cells-lines', 'the rows of a table start and end where they are drawn', got=tops, want=Y, slack=slack, **info)


def tables(x):
    """tables below each other and between texts: every ruling at its place"""
    rng = x.rng('tables')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(80 * x.n):
            if x.left() < 0: break
            doc, t = fitz.open(), Toks(rng)
            p = doc.new_page(width=595, height=842)
            y, want = rng.choice([40, 60, 100]), []
            if rng.random() < .7: put(p, [(60, y, t.row(460, 11))], 11); y += rng.choice([8, 20, 40])
            for _ in range(rng.randint(1, 4)):
                lw = rng.choice([.5, 1, 2, 3])
                Y = [y + lw / 2]
                for _ in range(rng.choice([1, 2, 3])): Y.append(Y[-1] + rng.choice([20, 27.3, 44]))
                X = [60, 200, rng.choice([400, 530])]
                for a in X: p.draw_line((a, Y[0]), (a, Y[-1]), width=lw)
                for b in Y: p.draw_line((X[0], b), (X[-1], b), width=lw)
                for i in range(len(Y) - 1): p.insert_text((66, Y[i] + 15), t.row(20, 9), fontsize=9)
                want.append((Y, lw)); y = Y[-1] + lw / 2 + rng.choice([9, 12, 25, 60])
                if rng.random() < .5: put(p, [(60, y + 9, t.row(460, 9))], 9); y += 9 * 1.4 + rng.choice([1, 5, 20])
            info = dict(tables=[([round(v, 1) for v in Y], lw) for Y, lw in want])
            x.case('tables', (k,), info)
            for fl in check_pdf(x, 'tables', f, doc, info):
                if not x.check(len(fl.tables) == len(want), 'tables-all', 'every table is a table', got=len(fl.tables), **info): continue
                for (e, tops, slack), (Y, lw) in zip(fl.tables, want):
                    if not x.check(len(tops) == len(Y), 'tables-rows', 'the rows drawn', got=tops, want=Y, **info): continue
                    last = (e, tops) == fl.tables[-1][:2]
                    for i, (a, b) in enumerate(zip(tops, Y)):
                        d = 1 if last and i == len(Y) - 1 else 0
                        x.check(abs(a - b) <= slack + .2 + d, 'tables-lines', 'the rows of a table start and end where they are drawn', got=tops, want=Y, slack=slack, **info)


def rich_pages(x):
    """random pages of all kinds of content, alone and turned"""
    rng = x.rng('rich')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(50 * x.n):
            if x.left() < 0: break
            doc = fitz.open()
            p = rich_page(doc, rng, f'P{k}', kinds=['p', 'p', 'p', 't', 's', 'h'], rotate=0)
            ls = [l['bbox'] for b in p.get_text('dict')['blocks'] for l in b.get('lines', ()) if l['dir'] != (1.0, 0.0)]
            if ls: doc.close(); continue
            rot = rng.choice([0, 0, 180])
            if rot: turn(doc, p, rot)
            info = dict(no=k, rot=rot)
            x.case('rich_pages', (k,), info)
            # pieces of text side by side are put into cells, as far as they fit
            side = any(a is not b and min(a['bbox'][3], b['bbox'][3]) - max(a['bbox'][1], b['bbox'][1]) > 2
                       for q in p.get_text('dict')['blocks'] for a in q.get('lines', ()) for b in q['lines'])
            check_pdf(x, 'rich', f, doc, info, rows=not side)
