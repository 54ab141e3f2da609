"""C20: the body of the document follows the page"""
import os
from .lib import *
from .pdfs import *
from .c05 import Grid
from .c19 import LONG
RULE = 'one case = one page (sequence of texts, ruled tables, pictures and overlapping pictures), with different neighbours in the document'
PARTS = ['flow', 'cells', 'rows']


def pic(rng): return pixmap(rng, 14, 10)


class Drawn:
    """a page with a sequence of elements; expected: what the body has to show, in order"""
    def __init__(self, doc, rng, no):
        self.want, self.floats, self.pics = [], 0, 0
        p = self.page = doc.new_page(width=595, height=842)
        y, k = 50, 0
        kind = rng.choice(['mixed', 'mixed', 'mixed', 'tables', 'floats', 'blank', 'lines'])
        self.kind = kind
        if kind == 'blank': return
        if kind in ('floats', 'lines'):
            if kind == 'lines':      # neither texts nor tables
                for a, b, h in ((50, 150, 400), (450, 550, 420), (200, 400, 410)): p.draw_line((a, h), (b, h))
            a, b = rng.uniform(60, 300), rng.uniform(60, 500)
            for i in range(rng.choice([2, 2, 3, 4])): p.insert_image(fitz.Rect(a + 40 * i, b + 30 * i, a + 120 + 40 * i, b + 90 + 30 * i), pixmap=pic(rng), keep_proportion=False); self.floats += 1
            return
        def text(t, x=72):
            nonlocal y
            p.insert_text((x, y + 10), t, fontsize=11); self.want.append(('p', t.split())); y += 14
        text(f'top{no}'); y += 10
        text(f'{LONG} {no}'); y += rng.choice([12, 30])
        float_at = rng.randrange(6) if rng.random() < .4 else -1
        while y < 680:
            if k == float_at:
                a = rng.uniform(80, 300)
                for i in range(rng.choice([2, 2, 3, 4])): p.insert_image(fitz.Rect(a + 40 * i, y + 10 * i, a + 120 + 40 * i, y + 50 + 10 * i), pixmap=pic(rng), keep_proportion=False); self.floats += 1
                y += 80 + rng.choice([15, 30])
            what = 'table' if kind == 'tables' else rng.choice(['text', 'text', 'table', 'table', 'pic'])
            if what == 'text':
                for i in range(rng.choice([1, 1, 2])): text(f'p{no}x{k}y{i} ' + sentence(rng, rng.choice([1, 4, 7])))
                y += rng.choice([6, 14, 40])
            elif what == 'table':
                g = Grid(rng, 72, round(y), merge=0, sizes=(1, 2, 2, 3))
                if g.ys[-1] > 790 or g.open: continue
                g.text = {c: [f't{no}x{k}c{c[0]}{c[1]}'] for c in g.span}
                g.fill = {}
                g.draw(p, rng)
                self.want.append(('t', [g.text[c][0] for c in sorted(g.span)], g.nr, g.nc))
                y = g.ys[-1] + max(g.h[-1][0], 1) + rng.choice([8, 10, 20, 45])
            else:
                w = rng.choice([60, 180, 300])
                p.insert_image(fitz.Rect(72, y, 72 + w, y + 40), pixmap=pic(rng), keep_proportion=False)
                self.want.append(('i',)); self.pics += 1
                y += 40 + rng.choice([12, 25])
            k += 1
            if rng.random() < .22: break
        if self.want[-1][0] != 't': text(f'end{no}')      # else the page would be laid out in columns


def size_of(p):
    """exact line height of a paragraph in points"""
    s = p.find(f'{W}pPr/{W}spacing')
    return int(s.get(W + 'line')) / 20 if s is not None and s.get(W + 'lineRule') == 'exact' else None


def events(es):
    """content of the elements in order: texts, tables, pictures"""
    out = []
    for e in es:
        if e.tag == W + 'p':
            ws = ''.join(text_of(e)).split()
            if ws: out.append(('p', ws))
            for _ in e.iter(WP + 'inline'): out.append(('i',))
        elif e.tag == W + 'tbl': out.append(('t', e))
    return out


def blank(e): return e.tag == W + 'p' and not ''.join(text_of(e)).strip() and next(e.iter(WP + 'inline', WP + 'anchor'), None) is None


def siblings(x, part, body, info):
    """rules that hold in the body and in every cell"""
    for holder in [body] + list(body.iter(W + 'tc')):
        kids = [e for e in holder if e.tag in (W + 'p', W + 'tbl')]
        for a, b in zip(kids, kids[1:]): x.check(not (a.tag == b.tag == W + 'tbl'), f'{part}-adjacent', 'a paragraph separates two tables', **info)
        x.check(bool(kids) and kids[-1].tag == W + 'p' or (holder is body and not kids), f'{part}-end', 'a paragraph is last, in the body and in every cell', inside=holder.tag.split('}')[1], **info)


def flow(x):
    """generated pages: what follows what in the body of the document"""
    rng = x.rng('flow')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(150 * x.n):
            if x.left() < 0: break
            doc = fitz.open()
            ps = [Drawn(doc, rng, n) for n in range(rng.randint(1, 4))]
            doc.save(f('b.pdf')); doc.close()
            convert(f('b.pdf'), f('b.docx'))
            d = Docx(f('b.docx'))
            info = dict(pages=[[(e[0],) + tuple(e[2:]) for e in p.want] + [p.floats, p.kind] for p in ps])
            x.case('flow', (k,), info)
            secs = d.sections()
            if not x.check(len(secs) == len(ps), 'flow-sections', 'every page is a section', got=len(secs), **info): continue
            siblings(x, 'flow', d.body, info)
            for n, (p, (s, es)) in enumerate(zip(ps, secs)):
                inf = dict(page=n, **info)
                own = es if n == len(ps) - 1 else es[:-1]     # without the paragraph that ends the section
                if n < len(ps) - 1: x.check(blank(es[-1]), 'flow-break', 'the section ends after the content of the page', **inf)
                x.check(len([0 for e in es for _ in e.iter(WP + 'anchor')]) == p.floats, 'flow-floats', 'overlapping pictures are floating, on their own page', got=len([0 for e in es for _ in e.iter(WP + 'anchor')]), want=p.floats, **inf)
                if p.kind in ('blank', 'floats', 'lines'):
                    x.check(not ''.join(t for e in es for t in text_of(e)).strip(), 'flow-blank', 'a page without text has none', **inf)
                    continue
                got = []
                for e in events(own):
                    if e[0] == 't':
                        cells = [''.join(text_of(c)).split() for c in e[1].iter(W + 'tc')]
                        got.append(('t', [w for c in cells for w in c], len(e[1].findall(W + 'tr')), max(len(r.findall(W + 'tc')) for r in e[1].findall(W + 'tr'))))
                    elif e[0] == 'p' and got and got[-1][0] == 'p': got[-1][1].extend(e[1])
                    else: got.append((e[0],) + tuple(list(v) for v in e[1:]))
                want = []
                for e in p.want:
                    if e[0] == 'p' and want and want[-1][0] == 'p': want[-1][1].extend(e[1])
                    else: want.append((e[0],) + tuple(list(v) if isinstance(v, list) else v for v in e[1:]))
                x.check(got == want, 'flow-order', 'texts, tables and pictures follow each other as on the page', got=got, want=want, **inf)
                # paragraphs without content: only before a table, and one after a table that ends the page
                for i, e in enumerate(own):
                    if not blank(e): continue
                    before_table = i + 1 < len(own) and own[i + 1].tag == W + 'tbl'
                    closing = i == len(own) - 1 and i > 0 and own[i - 1].tag == W + 'tbl'
                    x.check(before_table or closing, 'flow-empty', 'empty paragraphs are only before and after tables', at=i, of=len(own), **inf)
                    if closing: x.check((size_of(e) or 99) <= 1, 'flow-closing', 'the paragraph closing a page is small', got=size_of(e), **inf)
                for a, b in zip(own, own[1:]): x.check(not (blank(a) and blank(b)), 'flow-two', 'one empty paragraph is enough', **inf)
                if own and p.want and p.want[-1][0] == 't': x.check(own[-1].tag == W + 'p' and own[-2].tag == W + 'tbl', 'flow-last', 'a page that ends with a table is closed by one paragraph', **inf)


def cells(x):
    """texts, tables and pictures inside a cell"""
    rng = x.rng('cells')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(100 * x.n):
            if x.left() < 0: break
            doc = fitz.open(); p = doc.new_page(width=595, height=842)
            p.insert_text((72, 50), 'top', fontsize=11); p.insert_text((72, 80), LONG, fontsize=11)
            y, want = 110, []
            p.draw_rect((72, y, 500, 560), width=1); p.draw_line((420, y), (420, 560), width=1)
            p.insert_text((430, y + 100), 'right', fontsize=10)
            y += 12
            for i in range(rng.randint(1, 6)):
                if rng.random() < .5:
                    ws = [f'q{i}w{j}' for j in range(rng.choice([1, 3, 8]))]
                    p.insert_text((80, y + 10), ' '.join(ws), fontsize=10); want.append(('p', ws)); y += rng.choice([22, 40])
                else:
                    g = Grid(rng, 90, round(y), merge=0, sizes=(1, 2, 2), cw=(50, 90), rh=(24, 40))
                    g.open, g.fill, g.text = set(), {}, {c: [f'r{i}c{c[0]}{c[1]}'] for c in g.span}
                    g.draw(p, rng); want.append(('t', [g.text[c][0] for c in sorted(g.span)])); y = g.ys[-1] + max(g.h[-1][0], 1) + rng.choice([8, 12, 30])
                if y > 460: break
            doc.save(f('c.pdf')); doc.close()
            convert(f('c.pdf'), f('c.docx'))
            d = Docx(f('c.docx'))
            info = dict(cell=[e[:1] + (len(e[1]),) for e in want])
            x.case('cells', (k,), info)
            siblings(x, 'cells', d.body, info)
            outer = [t for t in d.body.findall(W + 'tbl')]
            if not x.check(len(outer) == 1, 'cells-table', 'the table is a table', got=len(outer), **info): continue
            tcs = outer[0].findall(f'{W}tr/{W}tc')
            if not x.check(len(tcs) == 2, 'cells-cells', 'the table has two cells', got=len(tcs), **info): continue
            got, merged = [], []
            for e in events(list(tcs[0])):
                e = ('t', [w for c in e[1].iter(W + 'tc') for w in ''.join(text_of(c)).split()]) if e[0] == 't' else e
                if e[0] == 'p' and got and got[-1][0] == 'p': got[-1][1].extend(e[1])
                else: got.append((e[0], list(e[1])))
            for e in want:
                if e[0] == 'p' and merged and merged[-1][0] == 'p': merged[-1][1].extend(e[1])
                else: merged.append((e[0], list(e[1])))
            x.check(got == merged, 'cells-order', 'texts and tables follow each other as in the cell', got=got, want=merged, **info)
            x.check(''.join(text_of(tcs[1])).split() == ['right'], 'cells-other', 'the other cell is not affected', **info)


def rows(x):
    """paragraphs with some of their rows in pieces far apart: what is above comes first"""
    from .c12 import put
    rng = x.rng('rows')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(60 * x.n):
            if x.left() < 0: break
            doc = fitz.open(); p = doc.new_page(width=595, height=842)
            p.insert_text((60, 50), LONG, fontsize=11)
            y, want, n, kinds = 80, LONG.split(), 0, []
            lone, wide = rng.random() < .3, rng.random() < .3       # one row left of the centre of the page; rows across it only
            while y < 640:
                fs = rng.choice([9, 10, 12, 14])
                lead, rows, part = fs * rng.choice([1.15, 1.4, 1.8]), [], None
                for i in range(rng.choice([1, 2, 3, 5, 7])):
                    y += lead
                    apart = rows and part != i - 1 and rng.random() < .3 and not (lone or wide)
                    short = 1 if lone and rows and rng.random() < .3 else 0
                    if short: lone, wide = False, True
                    if apart: part = i
                    for j in range(rng.choice([2, 2, 3]) if apart else 1):
                        ws = []
                        while fitz.get_text_length(' '.join(ws), fontsize=fs) < (40 if apart else 120 if short else 400 if lone or wide else rng.choice([150, 430])):
                            ws.append(word(rng, rng.randint(2, 4)) + str(n)); n += 1
                        if not apart: ws = ws[:-1] if fitz.get_text_length(' '.join(ws), fontsize=fs) > 470 else ws
                        rows.append((60 + 160 * j, y, ' '.join(ws))); want += ws
                kinds.append([len(rows), part, fs, round(lead, 1)])
                own = rng.random() < .5     # pieces in text objects of their own
                put(p, [r for r in rows if r[0] == 60 or not own], fs)
                for r in rows:
                    if own and r[0] != 60: put(p, [r], fs)
                y += rng.choice([.3, 1, 2]) * fs
            doc.save(f('r.pdf')); doc.close()
            convert(f('r.pdf'), f('r.docx'))
            d = Docx(f('r.docx'))
            x.case('rows', (k,), kinds)
            words = lambda e: [w for t in e.iter(W + 'p') for w in ''.join(r.text or '' if r.tag == W + 't' else ' ' for r in t.iter(W + 't', W + 'tab', W + 'br')).split()]
            no, got = {w: i for i, w in enumerate(want)}, []
            for e in d.sections()[0][1]:        # rows beside each other may be the cells of a table, column by column
                ws = words(e) if e.tag in (W + 'p', W + 'tbl') else []
                got += sorted(ws, key=lambda w: no.get(w, -1)) if e.tag == W + 'tbl' else ws
            at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), None)
            x.check(got == want, 'rows-order', 'the rows of the page follow each other as displayed', at=at, got=got[max(0, (at or 0) - 3):(at or 0) + 6], want=want[max(0, (at or 0) - 3):(at or 0) + 6], lens=(len(got), len(want)), kinds=kinds)
