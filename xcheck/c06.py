"""C06: merged cells partition the lattice of a ruled table"""
import os
from .lib import *
from .pdfs import *
from .c05 import Tbl, Grid
from pdf2docx import Converter
RULE = 'one case = one ruled table with borders present or missing lattice by lattice'
PARTS = ['loose', 'merged']


def connected(nr, nc, H, V):
    """segments connected with the outer frame; a segment = (horizontal, line, lattice)"""
    ends = lambda s: ((s[1], s[2]), (s[1], s[2] + 1)) if s[0] else ((s[2], s[1]), (s[2] + 1, s[1]))
    on = {(True, i, j) for i, j in H} | {(False, j, i) for i, j in V}
    seen = {s for s in on if s[1] in (0, nr if s[0] else nc)}
    pts = {p for s in seen for p in ends(s)}
    while True:
        new = {s for s in on - seen if any(p in pts for p in ends(s))}
        if not new: return seen
        seen |= new
        pts |= {p for s in new for p in ends(s)}


def loose(x):
    """inner borders present or missing at random: cells are disjoint, cover the table, and text stays where it is"""
    rng = x.rng('loose')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(140 * x.n):
            if x.left() < 0: break
            nr, nc = rng.choice([2, 3, 4, 5]), rng.choice([2, 3, 4, 5])
            p = rng.choice([.3, .5, .7, .9])
            H = {(i, j) for i in range(nr + 1) for j in range(nc) if i in (0, nr) or rng.random() < p}
            V = {(i, j) for i in range(nr) for j in range(nc + 1) if j in (0, nc) or rng.random() < p}
            on = connected(nr, nc, H, V)
            if len(on) != len(H) + len(V): continue          # a line on its own is no border
            rows = [i for i in range(nr + 1) if any((True, i, j) in on for j in range(nc))]
            cols = [j for j in range(nc + 1) if any((False, j, i) in on for i in range(nr))]
            if (len(rows), len(cols)) == (2, 2): continue
            xs, ys = [72], [100]
            for _ in range(nc): xs.append(xs[-1] + rng.randint(45, 90))
            for _ in range(nr): ys.append(ys[-1] + rng.randint(26, 60))
            doc = fitz.open()
            page = Turned(doc, 595, 842, rng.choice([0, 0, 0, 90, 180, 270]))
            page.insert_text((60, 60), 'before ' + sentence(rng, 3), fontsize=10)
            w = rng.choice([.5, 1, 2])
            segs = sorted(on)
            if rng.random() < .4: rng.shuffle(segs)
            how = rng.choice(['lines', 'rects'])
            for h, a, b in segs:
                q = ((xs[b], ys[a]), (xs[b + 1], ys[a])) if h else ((xs[a], ys[b]), (xs[a], ys[b + 1]))
                if how == 'lines': page.draw_line(*q, width=w)
                else: page.draw_rect(fitz.Rect(q[0][0] - w / 2, q[0][1] - w / 2, q[1][0] + w / 2, q[1][1] + w / 2), color=None, fill=(0, 0, 0))
            words = {}
            for i in range(nr):
                for j in range(nc):
                    if rng.random() < .8:
                        words[f'{word(rng, 2)}{i}{j}'] = (i, j)
                        page.insert_text((xs[j] + 6, ys[i] + 15), list(words)[-1], fontsize=7)
            doc.save(f('g.pdf')); doc.close()
            convert(f('g.pdf'), f('g.docx'))
            ts = [t for t in map(Tbl, Docx(f('g.docx')).body.iter(W + 'tbl')) if t.ruled()]
            info = dict(rows=nr, cols=nc, H=sorted(H), V=sorted(V), xs=xs, ys=ys, how=how)
            x.case('page', (k,), info)
            ck = lambda c, key, label, **i: x.check(c, f'loose-{key}', label, **i, **info)
            if not ck(len(ts) == 1, 'number', 'one table', got=len(ts)): continue
            t = ts[0]
            if not ck((t.nr, t.nc) == (len(rows) - 1, len(cols) - 1) and t.widths == {t.nc}, 'lattice', 'the table has the rows and columns drawn, every row is complete', got=(t.nr, t.nc, sorted(t.widths)), want=(len(rows) - 1, len(cols) - 1)): continue
            owner = {}
            for (i, j), (a, b) in t.span.items():
                for m in range(i, i + a):
                    for n in range(j, j + b): owner.setdefault((m, n), []).append((i, j))
            ck(set(owner) == {(i, j) for i in range(t.nr) for j in range(t.nc)} and all(len(v) == 1 for v in owner.values()), 'partition', 'merged cells are disjoint and cover the table', got=sorted(t.span.items()))
            # lattices of the document's table: union of drawn lattices between lines with borders
            ri = lambda i: max(n for n, v in enumerate(rows) if v <= i)
            ci = lambda j: max(n for n, v in enumerate(cols) if v <= j)
            where = {}
            for o in t.span:        # words of one line are told apart by a tab
                for wd in words: where.setdefault(wd, []).extend([o] * ''.join(t.text(o)).count(wd))
            for wd, (i, j) in words.items():
                got = where.get(wd, [])
                ck(len(got) == 1 and got[0] in owner.get((ri(i), ci(j)), []), 'text', 'text is in the cell displayed around it, once', word=wd, lattice=(i, j), got=got)
            # closed rectangles without borders inside are one cell
            comp = {(i, j): (i, j) for i in range(nr) for j in range(nc)}
            def find(q):
                while comp[q] != q: q = comp[q]
                return q
            for i in range(nr):
                for j in range(nc):
                    if j + 1 < nc and (i, j + 1) not in V: comp[find((i, j))] = find((i, j + 1))
                    if i + 1 < nr and (i + 1, j) not in H: comp[find((i, j))] = find((i + 1, j))
            groups = {}
            for q in comp: groups.setdefault(find(q), set()).add(q)
            for g in groups.values():
                a, b, c, d = min(q[0] for q in g), max(q[0] for q in g) + 1, min(q[1] for q in g), max(q[1] for q in g) + 1
                if len(g) != (b - a) * (d - c): continue
                if any((i, j) in H for i in range(a + 1, b) for j in range(c, d)) or any((i, j) in V for i in range(a, b) for j in range(c + 1, d)): continue
                # its outline is closed: neighbours are other regions; lines through it are counted if drawn elsewhere
                want = (ri(a), ci(c)), (ri(b - 1) - ri(a) + 1, ci(d - 1) - ci(c) + 1)
                ck(t.span.get(want[0]) == want[1], 'rectangle', 'a rectangle without borders inside is one cell', want=want, got=sorted(t.span.items()))


def merged(x):
    """tables of merged and separate cells: the ranges drawn"""
    rng = x.rng('merged')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(60 * x.n):
            if x.left() < 0: break
            doc = fitz.open()
            page = Turned(doc, 595, 842, rng.choice([0, 0, 0, 90, 180, 270]))
            page.insert_text((60, 40), 'before ' + sentence(rng, 3), fontsize=10)
            y, gs, x0 = 60, [], rng.choice([72, 240])
            while y < 600:
                g = Grid(rng, x0, y, merge=rng.choice([1, 2, 4, 6]), sizes=(2, 3, 4), cw=(45, 80), narrow=True)
                if g.ys[-1] > 790: break
                g.draw(page, rng); gs.append(g)
                y = g.ys[-1] + 40
            doc.save(f('g.pdf')); doc.close()
            with quiet(): cv = Converter(f('g.pdf')); cv.convert(f('g.docx')); got = cv.extract_tables(); cv.close()
            ts = [t for t in map(Tbl, Docx(f('g.docx')).body.iter(W + 'tbl')) if t.ruled()]
            info = dict(tables=[(g.nr, g.nc, g.how, [round(v, 2) for v in g.xs], [round(v, 2) for v in g.ys], sorted((k, v) for k, v in g.span.items() if v != (1, 1))) for g in gs])
            x.case('page', (k,), info)
            if not x.check(len(ts) == len(gs), 'merged-number', 'every ruled table is a table', got=len(ts), **info): continue
            for g, t in zip(gs, ts):
                x.check(t.span == g.span and len(t.widths) == 1, 'merged-spans', 'the ranges drawn as one cell are one merged cell, the others separate cells', got=sorted(t.span.items()), want=sorted(g.span.items()), **info)
                for o in g.span:
                    if o in t.cells: x.check(t.text(o) == g.text.get(o, []) == t.own_text(o), 'merged-text', 'a merged cell contains the text displayed in its range', cell=o, got=t.text(o), want=g.text.get(o, []), **info)
            if x0 != 240: continue            # a page used on one half only is laid out as a table: tables inside are not extracted (documented)
            want = [[[' '.join(g.text.get((i, j), [])) if (i, j) in g.span else None for j in range(g.nc)] for i in range(g.nr)] for g in gs]
            norm = lambda tt: [[None if c is None else ' '.join(c.split()) for c in r] for r in tt]
            x.check(all(w in [norm(v) for v in got] for w in want), 'merged-extract', 'extracted tables: the text of a merged cell in its first lattice, None in the others', got=got, want=want, **info)
