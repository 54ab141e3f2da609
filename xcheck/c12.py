"""C12: horizontal position of the rows of paragraphs"""
import os, unicodedata
from .lib import *
from .pdfs import *
from .c19 import LONG, words_of, width
RULE = 'one case = one paragraph (alignment, indents, number and widths of rows, size, place); distinct = different paragraphs'
PARTS = ['paragraphs', 'cells', 'columns', 'vertical', 'repeated', 'pieces']
TOL = 1.2


def squeeze(s): return ''.join(s.split())


def put(p, rows, fs, font='helv', turn=0):
    """one text object with rows of (x, y, text)"""
    p.insert_font(fontname=font)
    d = p.parent
    s = f'q BT /{font} {fs} Tf '
    for x, y, t in rows: s += f'1 0 0 1 {x:.4f} {p.mediabox.height - y:.4f} Tm ({t}) Tj '
    new = d.get_new_xref()
    d.update_object(new, '<<>>'); d.update_stream(new, (s + 'ET Q\n').encode())
    d.xref_set_key(p.xref, 'Contents', '[' + ' '.join(f'{k} 0 R' for k in p.get_contents() + [new]) + ']')


def rows_for(rng, kind, n, x, w, fs):
    """rows (x, width) of a paragraph of this kind within x .. x+w"""
    short = lambda: rng.uniform(.25, 1) * w
    if kind == 'left': r = [(x, short()) for _ in range(n)]; r[rng.randrange(n)] = (x, w)
    elif kind in ('first', 'hang'):
        k = rng.choice([6, 12, 24, 40])
        r = [(x + k * ((i == 0) == (kind == 'first')), 0) for i in range(n)]
        r = [(a, (x + w - a) * rng.choice([1, 1, rng.uniform(.3, 1)])) for a, _ in r]
    elif kind == 'right': r = [(x + w - b, b) for b in (short() for _ in range(n))]
    elif kind == 'center': r = [(x + w / 2 - b / 2, b) for b in (short() for _ in range(n))]
    elif kind in ('both', 'both first', 'both hang'):
        k = {'both': 0, 'both first': 1, 'both hang': -1}[kind] * rng.choice([8, 20, 30])
        r = [(x + (k if i == 0 else 0) + max(-k, 0), 0) for i in range(n)]
        r = [(a, x + w - a) for a, _ in r]
        r[-1] = (r[-1][0], r[-1][1] * rng.uniform(.2, 1))
    elif kind == 'last':
        r = [(x + w - b, b) for b in (short() for _ in range(n))]
        r[-1] = (x + rng.uniform(0, .2) * w, rng.uniform(.2, .6) * w)
    elif kind == 'ragged':
        r = [(x + a * w, 0) for a in (rng.uniform(0, .6) for _ in range(n))]
        r = [(a, (x + w - a) * rng.uniform(.25, .95)) for a, _ in r]
    return r


KINDS = ['left', 'left', 'first', 'first', 'hang', 'right', 'center', 'both', 'both first', 'both hang', 'last', 'ragged', 'ragged']


def draw(p, rng, used, x, y, w, kinds=KINDS, nmax=6, fs=None):
    """draw a paragraph; returns (rows, y below) where a row is (x0, x1, text), or None if not usable"""
    fs = fs or rng.choice([8, 9, 10, 11, 12, 14])
    font = rng.choice(['helv', 'tiro', 'cour'])
    kind, n = rng.choice(kinds), rng.randint(1, nmax)
    if kind in ('both', 'both first', 'both hang', 'last'): n = max(n, 3)
    rows, h = [], fs * 1.25
    for i, (a, b) in enumerate(rows_for(rng, kind, n, x, w, fs)):
        for _ in range(30):
            t = phrase(rng, b, fs, font)
            if squeeze(t) not in used and len(squeeze(t)) > 3: break
        else: return None
        used.add(squeeze(t))
        wd = fitz.get_text_length(t, font, fs)
        if kind in ('right', 'last') and not (kind == 'last' and i == n - 1) : a += b - wd
        if kind == 'center': a += (b - wd) / 2
        rows.append((a, y + h * i, t))
    put(p, rows, fs, font)
    return dict(kind=kind, fs=fs, font=font, rows=[(a, a + fitz.get_text_length(t, font, fs), t) for a, _, t in rows], y=y), y + h * (n - 1) + 2.6 * fs


def phrase(rng, w, fs, font):
    """words as wide as wanted (within a fraction of a point), beginning and ending with a letter"""
    L = lambda s: fitz.get_text_length(s, font, fs)
    t = rng.choice('bdghknopquvxyz')
    while L(t) < w - 2.5 * fs: t += rng.choice('abcdeghknopqrstuvxyz  ') if t[-1] != ' ' else rng.choice('aeou')
    if t[-1] == ' ': t += 'e'
    best = None
    for _ in range(60):
        u = t
        while L(u) < w - .3 * fs: u += rng.choice('abceghilrst.')
        for c in (u, u + 'i', u + 'l', u[:-1]):
            if best is None or abs(L(c) - w) < abs(L(best) - w): best = c
        if abs(L(best) - w) < .25: break
    return best


def same_block(p, want):
    """MuPDF takes the paragraph as one block with these rows, and places them as drawn"""
    have = {}
    for i, b in enumerate(p.get_text('dict', flags=fitz.TEXTFLAGS_TEXT)['blocks']):
        for l in b['lines']: have[squeeze(''.join(s['text'] for s in l['spans']))] = (i, len(b['lines']), l['bbox'])
    ok = True
    for par in want:
        got = [have.get(squeeze(t)) for _, _, t in par['rows']]
        if None in got or len({g[0] for g in got}) != 1 or got[0][1] != len(got): return False
        par['rows'] = [(g[2][0], g[2][2], t) if abs(g[2][0] - a) < 3 and abs(g[2][2] - b) < 3 else None for (a, b, t), g in zip(par['rows'], got)]
        if None in par['rows']: return False
    return ok


class Para:
    """a paragraph of the document as the positions it describes"""
    def __init__(self, p):
        self.p = p
        pr = p.find(W + 'pPr')
        ind = pr.find(W + 'ind') if pr is not None else None
        g = lambda k: float(ind.get(W + k) or 0) / 20 if ind is not None else 0
        self.left, self.right, self.first = g('left'), g('right'), g('firstLine') - g('hanging')
        jc = pr.find(W + 'jc') if pr is not None else None
        self.jc = jc.get(W + 'val') if jc is not None else 'left'
        self.tabs = sorted(float(t.get(W + 'pos')) / 20 for t in pr.iter(W + 'tab')) if pr is not None else []
        self.tokens = []
        for r in p.iter(W + 'r'):
            for e in r:
                if e.tag == W + 't': self.tokens.append(('text', e.text or ''))
                elif e.tag == W + 'tab': self.tokens.append(('tab',))
                elif e.tag == W + 'br': self.tokens.append(('br',))


def judge(x, key, para, a0, a1, drawn, **info):
    """compare the rows a paragraph of the document describes, in a text area a0..a1, with the rows drawn.
    drawn: {squeezed text: (paragraph, row)}; returns the number of rows judged"""
    rows, cur, done = [], dict(pre=[], text=''), 0
    for t in para.tokens:
        if t[0] == 'text':
            cur['text'] += t[1]
            if squeeze(cur['text']) in drawn: rows.append(cur); cur = dict(pre=[], text='')
        elif squeeze(cur['text']): return None
        else: cur['pre'].append(t[0]); cur['text'] = ''
        if t[0] == 'text' and not squeeze(cur['text']) and cur['text']: cur['pre'].append('blank'); cur['text'] = ''
    if squeeze(cur['text']) or not rows: return None
    got = [drawn[squeeze(r['text'])] for r in rows]
    par = got[0][0]
    if any(g[0] is not par for g in got): return None
    first = got[0][1]
    x.check([g[1] for g in got] == list(range(first, first + len(got))), key + ':rows', 'rows of a paragraph are kept in order', par=par, **info)
    n = len(got)
    last = got[-1][1] == len(par['rows']) - 1
    width_ = max(par['rows'][g[1]][1] for g in got) - min(par['rows'][g[1]][0] for g in got)
    fine = True
    say = lambda i, label, want, have: x.check(False, f'{key}:{label}', label, row=i, expected=want, found=have, jc=para.jc, indents=(para.left, para.first, para.right),
        tabs=para.tabs, area=(a0, a1), par=par, tokens=para.tokens[:40], **info)
    for i, (r, (_, no)) in enumerate(zip(rows, got)):
        x0, x1, t = par['rows'][no]
        tabs = r['pre'].count('tab')
        start = a0 + para.left + (para.first if i == 0 else 0)
        for _ in range(tabs):
            nxt = [q for q in para.tabs if a0 + q > start + .01]
            if not nxt: fine = False; say(no, 'a tab leads to a tab stop', x0, para.tabs); break
            start = a0 + nxt[0]
        end = a1 - para.right
        if para.jc in ('left', 'both') and abs(start - x0) > TOL: fine = False; say(no, 'a row starts where it is drawn', x0, start)
        if para.jc == 'right' and abs(end - x1) > TOL: fine = False; say(no, 'a row of a right-aligned paragraph ends where it is drawn', x1, end)
        if para.jc == 'center' and abs((start + end) / 2 - (x0 + x1) / 2) > 2.2: fine = False; say(no, 'a row of a centred paragraph is centred where it is drawn', (x0 + x1) / 2, (start + end) / 2)
        if para.jc == 'both' and i < n - 1 and abs(end - x1) > 2 * TOL: fine = False; say(no, 'a row of a justified paragraph ends where it is drawn', x1, end)
        if para.jc not in ('left', 'right', 'center', 'both'): fine = False; say(no, 'known alignment', '', para.jc)
        room = end - (a0 + para.left + (para.first if i == 0 else 0)) if para.jc in ('right', 'center') else end - start
        if room < x1 - x0 - TOL: fine = False; say(no, 'the text area is wide enough for the row', x1 - x0, room)
        brs = r['pre'].count('br')
        if i == 0:
            if brs: fine = False; say(no, 'no line break before the first row', 0, brs)
        else:
            px0, px1, pt = par['rows'][got[i - 1][1]]
            proom = end - (a0 + para.left + (para.first if i == 1 else 0)) if para.jc in ('right', 'center') else end - px0
            free = proom - (px1 - px0)
            if brs > 1: fine = False; say(no, 'one line break at most between rows', 1, brs)
            # centred rows: half of the free space at each side
            if not brs and free > .1 * width_ * (2 if para.jc == 'center' else 1) + 2: fine = False; say(no, 'a row leaving space is followed by a line break', f'{free:.1f} of {width_:.1f} free', 'no break')
            if not brs and not tabs and 'blank' not in r['pre'] and not r['text'][:1].isspace() and not rows[i - 1]['text'][-1:].isspace(): fine = False; say(no, 'words of successive rows stay apart', (pt, t), None)
            if para.jc == 'both' and brs: fine = False; say(no, 'no line break in the rows of a justified paragraph', 0, brs)
        done += 1
        if not fine: return done
    if last and [t for t in para.tokens[::-1] if t[0] != 'text' or squeeze(t[1])][0][0] == 'br': say(no, 'no line break after the last row', '', 'br')
    return done


def page():
    d = fitz.open()
    p = d.new_page(width=595, height=842)
    p.insert_text((72, 50), 'Top', fontsize=11); p.insert_text((72, 80), LONG, fontsize=11)
    return d, p


def sequence(p, rng, x0, x1, y, bottom, kinds=KINDS, nmax=6, full=False):
    used, out = set(), []
    while y < bottom:
        x, w = rng.choice([x0, x0, rng.uniform(x0, x0 + .5 * (x1 - x0))]), 0
        w = rng.choice([x1 - x, (x1 - x) * rng.uniform(.4, 1)])
        if rng.random() < .12: x = (x0 + x1) / 2 - w / 2
        r = draw(p, rng, used, x, y, w, kinds, nmax)
        if r is None: continue
        out.append(r[0]); y = r[1]
    return out


def index(pars): return {squeeze(t): (par, i) for par in pars for i, (_, _, t) in enumerate(par['rows'])}


def area_of(sect):
    pg, mar = sect.find(W + 'pgSz'), sect.find(W + 'pgMar')
    return int(mar.get(W + 'left')) / 20, (int(pg.get(W + 'w')) - int(mar.get(W + 'right'))) / 20


def paragraphs(x):
    rng = x.rng('paragraphs')
    with scratch() as tmp:
        pdf, out = os.path.join(tmp, 'a.pdf'), os.path.join(tmp, 'a.docx')
        left = 25 * x.n
        while left > 0 and x.left() > 0:
            left -= 1
            d, p = page()
            pars = sequence(p, rng, rng.choice([72, 72, 60, 100]), rng.choice([523, 523, 500]), 120, 640)
            p.insert_text((72, 800), 'End', fontsize=11)
            d.save(pdf); d.close()
            d = fitz.open(pdf)
            usable = same_block(d[0], pars); d.close()
            if not usable: continue
            D = Docx(convert(pdf, out))
            want, seen = index(pars), 0
            for s, es in D.sections():
                if len(es) and s.find(W + 'cols') is not None and int(s.find(W + 'cols').get(W + 'num') or 1) > 1: seen = None; break
                a0, a1 = area_of(s)
                for e in es:
                    if e.tag == W + 'p': seen += judge(x, 'page', Para(e), a0, a1, want) or 0
            if seen is None or list(D.body.iter(W + 'tbl')): continue
            found(x, 'page', seen, want, D)
            for q in pars: x.case('paragraphs', repr((q['kind'], q['fs'], q['rows'])), q)


def found(x, key, seen, want, D):
    x.check(seen == len(want), key + ':all', 'every row is found in a paragraph of its own text', found=seen, of=len(want), paragraphs=[''.join(text_of(p))[:300] for p in D.body.iter(W + 'p')],
            drawn=[[(round(a), round(b), t) for a, b, t in q['rows']] for q in {id(v[0]): v[0] for v in want.values()}.values()])


def table_rows(x, key, D, t, want):
    """rows of the paragraphs in the cells of a table"""
    seen = 0
    a0, _ = area_of(D.sections()[0][0])
    a0 += float(t.find(f'{W}tblPr/{W}tblInd').get(W + 'w')) / 20
    for tr in t.findall(W + 'tr'):
        c0 = a0
        for tc in tr.findall(W + 'tc'):
            c1 = c0 + float(tc.find(f'{W}tcPr/{W}tcW').get(W + 'w')) / 20
            for e in tc.findall(W + 'p'): seen += judge(x, key, Para(e), c0, c1, want) or 0
            c0 = c1
    return seen


def pieces(x):
    """rows of small text, of pieces with less than 5 pt between them"""
    rng = x.rng('pieces')
    with scratch() as tmp:
        pdf, out = os.path.join(tmp, 'p.pdf'), os.path.join(tmp, 'p.docx')
        left = 20 * x.n
        while left > 0 and x.left() > 0:
            left -= 1
            d, p = page()
            fs, y, pars, used, lines = rng.choice([4, 4.5, 5]), 120, [], set(), 0
            while y < 500:
                X, w, n = rng.choice([72, 72, 150]), rng.choice([300, 400]), rng.choice([2, 3, 3, 4])       # more than 8 pieces are taken for a table
                kind = rng.choice(['both', 'both first', 'left', 'right', 'center'])
                rows, put_, same = [], [], rng.choice([0, 0, X + rng.uniform(.2, .5) * w])     # where all first pieces end
                for i, (a, b) in enumerate(rows_for(rng, kind, n, X, w, fs)):
                    u, cuts = a, sorted(rng.uniform(.2, .8) for _ in range(rng.choice([0, 1, 1]) if n > 3 else 1))
                    ends = [a + b * c for c in cuts] + [a + b]
                    if same and kind in ('left', 'both', 'both first') and same < a + b - 35: ends = [same, a + b]
                    ts = []
                    for e in ends:
                        if e - u < 25: continue
                        t = phrase(rng, e - u, fs, 'helv')
                        put_.append((u, y + 1.3 * fs * i, t)); ts.append(t)
                        u += fitz.get_text_length(t, 'helv', fs); last = u
                        u += max(.95 * fs, rng.uniform(4.1, 4.7))
                    if not ts: break
                    dx = {'right': a + b - last, 'center': (a + b - last) / 2}.get(kind, 0)
                    if dx: put_ = [(q + dx if v == y + 1.3 * fs * i else q, v, t) for q, v, t in put_]
                    rows.append((a + dx, last + dx, ' '.join(ts)))
                if len(rows) < n or len({squeeze(t) for _, _, t in rows} | used) < len(rows) + len(used): continue
                used |= {squeeze(t) for _, _, t in rows}
                put(p, put_, fs)
                pars.append(dict(kind=kind, fs=fs, font='helv', rows=rows, y=y)); lines += len(put_)
                y += 1.3 * fs * n + 3 * fs
            p.insert_text((72, 800), 'End', fontsize=11)
            d.save(pdf); d.close()
            d = fitz.open(pdf)
            bs = [b['lines'] for b in d[0].get_text('dict', flags=fitz.TEXTFLAGS_TEXT)['blocks']]; d.close()
            if len(bs) != len(pars) + 3 or sum(map(len, bs)) != lines + 3: continue       # every piece a line, every paragraph a block
            D = Docx(convert(pdf, out))
            want, seen = index(pars), 0
            if list(D.body.iter(W + 'tbl')): continue
            for s, es in D.sections():
                a0, a1 = area_of(s)
                for e in es:
                    if e.tag == W + 'p': seen += judge(x, 'pieces', Para(e), a0, a1, want) or 0
            for q in pars: x.case('pieces', repr((q['kind'], q['fs'], q['rows'])), q)
            x.seen = getattr(x, 'seen', 0) + seen


def cells(x):
    rng = x.rng('cells')
    with scratch() as tmp:
        pdf, out = os.path.join(tmp, 'c.pdf'), os.path.join(tmp, 'c.docx')
        left = 14 * x.n
        while left > 0 and x.left() > 0:
            left -= 1
            d, p = page()
            xs = [72] + sorted(rng.uniform(180, 420) for _ in range(rng.randint(0, 1))) + [523]
            ys = [110]
            for _ in range(rng.randint(1, 3)): ys.append(ys[-1] + rng.choice([100, 160, 220]))
            for a in xs: p.draw_line((a, ys[0]), (a, ys[-1]), width=.5)
            for a in ys: p.draw_line((xs[0], a), (xs[-1], a), width=.5)
            pars, place, used = [], {}, set()
            for i in range(len(ys) - 1):
                for j in range(len(xs) - 1):
                    y = ys[i] + 18
                    while y < ys[i + 1] - 85:
                        m = rng.choice([3, 10, 20])
                        r = draw(p, rng, used, xs[j] + m, y, (xs[j + 1] - xs[j] - 2 * m) * rng.choice([1, rng.uniform(.5, 1)]), nmax=4, fs=rng.choice([8, 9, 10]))
                        if r is None: continue
                        pars.append(r[0]); y = r[1]
                        place[id(r[0])] = (i, j)
            p.insert_text((72, 815), 'End', fontsize=11)
            d.save(pdf); d.close()
            d = fitz.open(pdf)
            usable = same_block(d[0], pars); d.close()
            if not usable: continue
            D = Docx(convert(pdf, out))
            want = index(pars)
            tbls = [e for e in D.body if e.tag == W + 'tbl']
            if len(tbls) != 1 or tbls[0].find(f'.//{W}tc//{W}tbl') is not None: continue
            found(x, 'cell', table_rows(x, 'cell', D, tbls[0], want), want, D)
            for q in pars: x.case('cells', repr((q['kind'], q['fs'], q['rows'])), q)


def columns(x):
    """two columns of text, next to each other"""
    rng = x.rng('columns')
    with scratch() as tmp:
        pdf, out = os.path.join(tmp, 'k.pdf'), os.path.join(tmp, 'k.docx')
        left = 14 * x.n
        while left > 0 and x.left() > 0:
            left -= 1
            d, p = page()
            kinds = ['left', 'first', 'hang', 'both', 'both first', 'right', 'center', 'ragged']
            pars = [sequence(p, rng, 72, 285, 130, 600, kinds, 5), sequence(p, rng, 310, 523, 130, 600, kinds, 5)]
            d.save(pdf); d.close()
            d = fitz.open(pdf)
            both = pars[0] + pars[1]
            want = index(both)
            usable = same_block(d[0], both) and len(want) == sum(len(q['rows']) for q in both); d.close()
            if not usable: continue
            D = Docx(convert(pdf, out))
            tbls = [e for e in D.body if e.tag == W + 'tbl']
            if len(tbls) != 1 or tbls[0].find(f'.//{W}tc//{W}tbl') is not None: continue
            n = sum(judge(x, 'column', Para(e), *area_of(D.sections()[0][0]), want) or 0 for e in D.body if e.tag == W + 'p')
            found(x, 'column', n + table_rows(x, 'column', D, tbls[0], want), want, D)
            for q in both: x.case('columns', repr((q['kind'], q['fs'], q['rows'])), q)


def vertical(x):
    """text read bottom to top in the cells of a ruled table"""
    rng = x.rng('vertical')
    with scratch() as tmp:
        pdf, out = os.path.join(tmp, 'v.pdf'), os.path.join(tmp, 'v.docx')
        left = 12 * x.n
        while left > 0 and x.left() > 0:
            left -= 1
            d = fitz.open()
            p = d.new_page(width=842, height=595)          # shown as 595 x 842 after the turn
            used = set()
            x0, x1, y0, y1 = 100, 742, 100, 100 + rng.choice([120, 200, 320])
            for a, b in (((x0, y0), (x1, y0)), ((x0, y1), (x1, y1)), ((x0, y0), (x0, y1)), ((x1, y0), (x1, y1))): p.draw_line(a, b, width=.5)
            mid = rng.choice([None, rng.uniform(350, 500)])
            if mid: p.draw_line((mid, y0), (mid, y1), width=.5)
            edges = [x0] + ([mid] if mid else []) + [x1]
            pars, cell = [], {}
            for j in range(len(edges) - 1):
                y = y0 + 18
                while y < y1 - 70:
                    m = rng.choice([3, 10, 20])
                    r = draw(p, rng, used, edges[j] + m, y, (edges[j + 1] - edges[j] - 2 * m) * rng.choice([1, rng.uniform(.5, 1)]), nmax=4, fs=rng.choice([8, 9, 10]))
                    if r is None: continue
                    pars.append(r[0]); y = r[1]; cell[id(r[0])] = j
            if not same_block(p, pars): continue
            p.set_rotation(270)
            d.save(pdf); d.close()
            D = Docx(convert(pdf, out))
            want, seen = index(pars), 0
            for tc in D.body.iter(W + 'tc'):
                if tc.find(f'{W}tcPr/{W}textDirection') is None: continue
                for e in tc.findall(W + 'p'):
                    q = Para(e)
                    hit = next((want[k] for t in q.tokens if t[0] == 'text' for k in [squeeze(t[1])] if k in want), None)
                    if hit is None: continue
                    j = cell[id(hit[0])]
                    seen += judge(x, 'vertical', q, edges[j], edges[j + 1], want) or 0
            found(x, 'vertical', seen, want, D)
            for q in pars: x.case('vertical', repr((q['kind'], q['fs'], q['rows'])), q)



def repeated(x):
    """rows with the same words: each short one is followed by a line break, except at the end"""
    rng = x.rng('repeated')
    with scratch() as tmp:
        pdf, out = os.path.join(tmp, 'r.pdf'), os.path.join(tmp, 'r.docx')
        for _ in range(20 * x.n):
            if x.left() < 0: break
            d, p = page()
            fs, w = rng.choice([9, 10, 12]), rng.choice([300, 400, 451])
            full = phrase(rng, w, fs, 'helv')
            some = [phrase(rng, w * rng.uniform(.3, .6), fs, 'helv') for _ in range(rng.choice([1, 2]))]
            rows = [rng.choice(some) for _ in range(rng.randint(2, 5))]
            rows.insert(rng.randrange(len(rows)), full)
            put(p, [(72, 120 + 1.25 * fs * i, t) for i, t in enumerate(rows)], fs)
            p.insert_text((72, 800), 'End', fontsize=11)
            lines = [[squeeze(''.join(s['text'] for s in l['spans'])) for l in b['lines']] for b in p.get_text('dict')['blocks'] if 'lines' in b]
            d.save(pdf); d.close()
            if [squeeze(t) for t in rows] not in lines: continue
            D = Docx(convert(pdf, out))
            x.case('repeated', repr(rows), rows)
            pars = [Para(e) for e in D.body.iter(W + 'p') if squeeze(full) in squeeze(''.join(text_of(e)))]
            if not x.check(len(pars) == 1, 'repeated:all', 'every row is found in a paragraph of its own text', rows=rows): continue
            got, cur = [], ''
            for t in pars[0].tokens:
                if t[0] == 'text': cur += t[1]
                elif t[0] == 'br': got.append(squeeze(cur)); cur = ''
            got.append(squeeze(cur))
            want = []
            for i, t in enumerate(rows):        # a full row may run on
                if i and rows[i - 1] == full: want[-1] += squeeze(t)
                else: want.append(squeeze(t))
            alt = [squeeze(t) for t in rows]
            x.check(got in (want, alt), 'repeated:breaks', 'a row leaving space is followed by a line break, also if a later row has the same words', got=got, want=alt)
