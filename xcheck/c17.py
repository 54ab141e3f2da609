"""C17: drawings with curves become pictures of what the page shows, straight ones lines and areas"""
import os, math
import numpy as np, cv2
from .lib import *
from .pdfs import *
from .c05 import Grid, Tbl, compare as compare_table
from .c10 import found
from .c19 import LONG
RULE = 'one case = one page of drawings (circles, polygons, charts, curves) among text, tables and pictures'
PARTS = ['pages', 'turned', 'straight', 'widths', 'ratio', 'forms', 'cells', 'near', 'beside']
DARK = [(0, 0, 0), (1, 0, 0), (0, 0, 1), (.2, .5, .1), (.05, .05, .6), (.6, .3, 0)]


def graphic(page, rng, x, y, w, h):
    """draws something with curves or slanted lines within the box; what is used of it"""
    s = page.new_shape()
    kind = rng.choice(['circle', 'circles', 'triangle', 'chart', 'pie', 'curve', 'squiggle', 'star', 'logo', 'diamond', 'quad', 'right'])
    ink = lambda: tuple(round(rng.random() * .8, 3) for _ in range(3))      # no two drawings look the same
    c, f = ink(), rng.choice([None, ink()])
    lw = rng.choice([.5, 1, 1, 2, 3])
    P = fitz.Point
    if kind == 'circle':
        r = min(w, h) / 2; s.draw_circle(P(x + r, y + r), r); s.finish(color=c, fill=f, width=lw)
        box = (x, y, x + 2 * r, y + 2 * r)
    elif kind == 'circles':
        r = h / 2; n = max(1, int((w - 2 * r) / (r * 1.5)) + 1)
        for i in range(n): s.draw_circle(P(x + r + 1.5 * r * i, y + r), r); s.finish(color=ink(), fill=ink(), width=lw)
        box = (x, y, x + 2 * r + 1.5 * r * (n - 1), y + h)
    elif kind == 'triangle':
        s.draw_polyline([P(x, y + h), P(x + w / 2, y), P(x + w, y + h)]); s.finish(color=c, fill=f, width=lw, closePath=True)
        box = (x, y, x + w, y + h)
    elif kind == 'chart':
        n = 6
        pts = [P(x, y + h)] + [P(x + w * i / n, y + h * (.95 if i % 2 else rng.uniform(0, .5))) for i in range(1, n)] + [P(x + w, y)]
        s.draw_polyline(pts); s.finish(color=c, width=max(lw, 1), closePath=False)
        box = (x, y, x + w, y + h)
    elif kind == 'pie':
        r = min(w, h) / 2; s.draw_sector(P(x + r, y + r), P(x + 2 * r, y + r), 359); s.finish(color=c, fill=ink(), width=lw)
        box = (x, y, x + 2 * r, y + 2 * r)
    elif kind == 'curve':
        s.draw_bezier(P(x, y + h), P(x + w * .4, y - h * .3), P(x + w * .6, y + h * 1.3), P(x + w, y)); s.finish(color=c, width=max(lw, 1), closePath=False)
        box = (x, y, x + w, y + h)
    elif kind == 'squiggle':
        s.draw_squiggle(P(x, y + h / 2), P(x + w, y + h / 2), 3); s.finish(color=c, width=max(lw, 1), closePath=False)
        box = (x, y + h / 2 - 4, x + w, y + h / 2 + 4)
    elif kind == 'star':
        r, m = min(w, h) / 2, P(x + min(w, h) / 2, y + min(w, h) / 2)
        pts = [m + P(math.sin(math.pi * i / 5), -math.cos(math.pi * i / 5)) * (r if i % 2 == 0 else r / 2.5) for i in range(10)]
        s.draw_polyline(pts); s.finish(color=c, fill=f or c, width=lw, closePath=True)
        box = (x + r * .05, y, x + r * 1.95, y + r * 1.81)
    elif kind == 'right':       # two sides along the page, closed by the third
        s.draw_polyline([P(x, y), P(x, y + h), P(x + w, y + h)]); s.finish(color=c, fill=f, width=max(lw, 1), closePath=True)
        box = (x, y, x + w, y + h)
    elif kind in ('diamond', 'quad'):       # closed by a line, or as told
        pts = [P(x + w / 2, y), P(x + w, y + h / 2), P(x + w / 2, y + h), P(x, y + h / 2)] if kind == 'diamond' else [P(x, y), P(x + w * .8, y), P(x + w, y + h), P(x + w * .3, y + h)]
        shut = rng.choice([True, False])
        s.draw_polyline(pts + ([] if shut else pts[:1])); s.finish(color=c, fill=f, width=max(lw, 1), closePath=shut)
        box = (x, y, x + w, y + h)
    else:       # a framed circle
        s.draw_rect(fitz.Rect(x, y, x + w, y + h)); s.finish(color=c, fill=None, width=lw)
        r = min(w, h) / 2; s.draw_circle(P(x + w / 2, y + h / 2), r); s.finish(color=c, fill=f, width=lw)
        for q in (0, 1): s.draw_circle(P(x + w / 2, y + h / 2), r * (.3 + .3 * q)); s.finish(color=c, width=lw)
        box = (x, y, x + w, y + h)
    s.commit()
    return kind, fitz.Rect(box)


def where(pic, page, zoom, used=()):
    """where the picture is part of what the page shows (a large array), by its pixels; None if nowhere"""
    if pic is None or pic.shape[0] > page.shape[0] or pic.shape[1] > page.shape[1]: return None
    small = lambda a: cv2.resize(a.astype(np.float32), (max(1, round(a.shape[1] / zoom)), max(1, round(a.shape[0] / zoom))), interpolation=cv2.INTER_AREA)
    a, b = small(page), small(pic)
    d = cv2.matchTemplate(a, b[:a.shape[0], :a.shape[1]], cv2.TM_SQDIFF)
    for _ in range(4 + 4 * len(used)):
        _, _, (u, v), _ = cv2.minMaxLoc(d)
        d[max(0, v - 1):v + 2, max(0, u - 1):u + 2] = 1e30
        m = int(zoom) + 1
        x0, y0 = max(0, int(u * zoom) - m), max(0, int(v * zoom) - m)
        area = page[y0:y0 + pic.shape[0] + 2 * m, x0:x0 + pic.shape[1] + 2 * m]
        if area.shape[0] < pic.shape[0] or area.shape[1] < pic.shape[1]: continue
        _, _, (p, q), _ = cv2.minMaxLoc(cv2.matchTemplate(area.astype(np.float32), pic.astype(np.float32), cv2.TM_SQDIFF))
        part = page[y0 + q:y0 + q + pic.shape[0], x0 + p:x0 + p + pic.shape[1]].astype(float)
        if (np.abs(part - pic).max(2) > 30).mean() <= .001 and (x0 + p, y0 + q) not in used: return x0 + p, y0 + q


def shown_page(page, zoom):
    p = page.get_pixmap(matrix=fitz.Matrix(zoom, zoom), alpha=False)
    return np.frombuffer(p.samples, np.uint8).reshape(p.height, p.width, 3)


def draw(p, q, rng, no, tables=True, thin=False):
    """a page p of drawings, and q, the same without text; returns (boxes of drawings, words, tables)"""
    boxes, words, grids = [], [], []
    H = p.rect.height
    def say(at, t, **k): p.insert_text(at, t, **k); words.extend(t.split())
    y = 50
    say((50, y), LONG + f' g{no}', fontsize=10); y += 30
    k = 0
    while y < H - 250:
        k += 1
        what = rng.choice(['one', 'one', 'two', 'label', 'text', 'table'] if tables else ['one', 'two', 'label', 'text'])
        w, h = rng.choice([(60, 40), (120, 60), (40, 40), (200, 80)])
        x = rng.choice([60, 72.5, 150, 240])
        st = rng.getstate()
        if what == 'text': say((50, y + 10), f'x{k} ' + sentence(rng, 6), fontsize=10); y += 40; continue
        if what == 'table':
            g = Grid(rng, 60, round(y), merge=0, sizes=(1, 2, 2, 3), cw=(60, 140), rh=(25, 40))
            if g.ys[-1] > H - 120 or g.open: y += 5; continue
            if thin: g.h, g.v = [[(min(w, 1), c) for w, c in l] for l in (g.h, g.v)]       # PyMuPDF does not tell the width of lines drawn turned
            st = rng.getstate(); g.draw(p, rng); end = rng.getstate()
            rng.setstate(st); t, g.text = g.text, {}; g.draw(q, rng); g.text = t; rng.setstate(end)
            grids.append(g); words += [v for t in g.text.values() for v in t]; y = g.ys[-1] + 45; continue
        for i in range(2 if what == 'two' else 1):
            xx = x + i * (w + 60)
            if xx + w > 560: break
            st = rng.getstate(); kind, b = graphic(p, rng, xx, y, w, h)
            rng.setstate(st); graphic(q, rng, xx, y, w, h)
            boxes.append((kind, b))
            if what == 'label': say((b.x0 + b.width / 3, (b.y0 + b.y1) / 2 + 3), f'l{k}' + word(rng, 3), fontsize=8)
        y += h + 45
        if rng.random() < .5: say((50, y), f'y{k} ' + sentence(rng, 6), fontsize=10); y += 35
        if rng.random() < .15: break
    say((50, H - 60), LONG + f' end{no}', fontsize=10)
    return boxes, words, grids


def judge(x, key, got, boxes, arr, zoom, info, close=False):
    """pictures of one section against the drawings of the page"""
    spots, used = [], []
    for g in got:
        loc = where(g['shows'], arr, zoom, used)
        if x.check(loc is not None, key + '-shows', 'a picture of the document shows a part of the page, without text', size=(round(g['w'], 1), round(g['h'], 1)), **info):
            r = fitz.Rect(loc[0] / zoom, loc[1] / zoom, (loc[0] + g['shows'].shape[1]) / zoom, (loc[1] + g['shows'].shape[0]) / zoom)
            spots.append((r, g))
            used.append(loc)
            x.check(abs(g['w'] - r.width) <= 1 and abs(g['h'] - r.height) <= 1, key + '-size', 'as large as on the page', got=(g['w'], g['h']), want=tuple(r), **info)
            if g['at']: x.check(abs(g['at'][0][0] - r.x0) <= 1 and abs(g['at'][0][1] - r.y0) <= 1, key + '-place', 'a floating picture is at its place', got=g['at'], want=tuple(r), **info)
            x.check(any(b.intersects(r) for _, b in boxes), key + '-only', 'only drawings become pictures', at=tuple(r), **info)
    for kind, b in boxes:
        hit = [r for r, g in spots if r.x0 <= b.x0 + 1 and r.y0 <= b.y0 + 1 and r.x1 >= b.x1 - 1 and r.y1 >= b.y1 - 1]
        x.check(len(hit) == 1 or close and hit, key + '-there', 'every drawing is in exactly one picture, whole', kind=kind, at=[round(v, 1) for v in b], spots=[[round(v, 1) for v in r] for r, _ in spots], **info)
    for i, (r, _) in enumerate(() if close else spots):
        for s, _ in spots[:i]: x.check(not (r & s).is_valid or (r & s).is_empty, key + '-apart', 'pictures of drawings do not overlap', a=tuple(r), b=tuple(s), **info)


def run(x, key, rng, deg=0, tables=True, no=0, save=None):
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        doc, txt = fitz.open(), fitz.open()
        size = dict(width=595, height=rng.choice([842, 792]))
        p, q = doc.new_page(**size), txt.new_page(**size)
        boxes, words, grids = draw(p, q, rng, no, tables, deg in (90, 270))
        zoom = rng.choice([4., 4., 2., 3.])
        if deg: turn(doc, p, deg); turn(txt, q, deg)
        if deg and rng.random() < .4:
            to = rng.randint(-90, 90), rng.randint(-90, 90), rng.random() < .5
            shift(doc, p, *to); shift(txt, q, *to)
        doc.save(f('a.pdf')); doc.close()
        if save: import shutil; shutil.copy(f('a.pdf'), save)
        convert(f('a.pdf'), f('a.docx'), kwargs=dict(clip_image_res_ratio=zoom))
        info = dict(no=no, rotation=deg, zoom=zoom)
        x.case(key, (no,), dict(drawings=[k for k, _ in boxes], tables=len(grids), **info))
        arr = shown_page(txt[0], zoom)
        d = Docx(f('a.docx'))
        judge(x, key, [g for s in found(f('a.docx')) for g in s], boxes, arr, zoom, info)
        got = sorted(w for p in d.body.iter(W + 'p') for w in ''.join(text_of(p)).split())
        x.check(got == sorted(words), key + '-text', 'text on and around drawings is there, once', lost=[w for w in words if w not in got], more=[w for w in got if w not in words], **info)
        ts = [t for t in map(Tbl, d.body.iter(W + 'tbl')) if t.ruled()]
        x.check(len(ts) == len(grids), key + '-tables', 'tables beside drawings are tables', got=len(ts), want=len(grids), **info)


def pages(x):
    rng = x.rng('pages')
    for k in range(60 * x.n):
        if x.left() < 0: break
        run(x, 'pages', rng, no=k)


def turned(x):
    rng = x.rng('turned')
    for k in range(25 * x.n):
        if x.left() < 0: break
        run(x, 'turned', rng, deg=rng.choice([90, 180, 270]), no=k)


def single(x, key, rng, put, want, info, table=None, **kw):
    """one page with something drawn between two rows of text: is it a picture?"""
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        doc = fitz.open(); p = doc.new_page(width=595, height=842)
        p.insert_text((50, 50), LONG, fontsize=10)
        words = LONG.split() + put(p) + LONG.split()
        p.insert_text((50, 760), LONG, fontsize=10)
        doc.save(f('a.pdf')); doc.close()
        convert(f('a.pdf'), f('a.docx'), kwargs=kw)
        x.case(key, (info['no'],), info)
        d, n = Docx(f('a.docx')), len([g for s in found(f('a.docx')) for g in s])
        if want is not None: x.check(n == want, key + '-pictures', 'drawings are pictures if they have curves, else not', got=n, want=want, **info)
        got = sorted(w for p in d.body.iter(W + 'p') for w in ''.join(text_of(p)).split())
        x.check(got == sorted(words), key + '-text', 'text on and around drawings is there, once', lost=[w for w in words if w not in got], more=[w for w in got if w not in words], **info)
        if table is not None:
            ts = [t for t in map(Tbl, d.body.iter(W + 'tbl')) if t.ruled()]
            x.check(len(ts) == table, key + '-tables', 'straight lines are tables', got=len(ts), want=table, **info)


def straight(x):
    """what is horizontal or vertical, and areas with such borders, never becomes a picture"""
    rng = x.rng('straight')
    for k in range(60 * x.n):
        if x.left() < 0: break
        what, words, round_ = [], [], rng.random() < .5
        def put(p):
            y = 90
            if round_: p.draw_circle((300, 715), 18, color=rng.choice(DARK))
            while y < 620:
                kind = rng.choice(['line', 'vline', 'rect', 'fill', 'both', 'cross', 'under', 'wide', 'steps', 'dashed', 'corner', 'stairs', 'frame'])
                c, f, w = rng.choice(DARK), rng.choice(DARK + [(1, 1, 0), (.9, .9, .9)]), rng.choice([.1, .5, 1, 2, 5, 7.7])
                a, b = rng.choice([60, 72.3, 200]), rng.choice([20, 100, 250])
                h = rng.choice([3, 12, 40])
                what.append(kind)
                if kind == 'line': p.draw_line((a, y), (a + b, y), color=c, width=w)
                elif kind == 'vline': p.draw_line((a, y), (a, y + h), color=c, width=w)
                elif kind == 'rect': p.draw_rect((a, y, a + b, y + h), color=c, width=w)
                elif kind == 'fill': p.draw_rect((a, y, a + b, y + h), color=None, fill=f)
                elif kind == 'both': p.draw_rect((a, y, a + b, y + h), color=c, fill=f, width=w)
                elif kind == 'cross': p.draw_line((a, y + h / 2), (a + b, y + h / 2), color=c, width=w); p.draw_line((a + b / 2, y), (a + b / 2, y + h), color=c, width=w)
                elif kind == 'under': t = f'u{len(words)}' + word(rng, 5); p.insert_text((a, y + 10), t, fontsize=10); p.draw_line((a, y + 12), (a + 40, y + 12), color=c, width=.5); words.append(t)
                elif kind == 'wide': p.draw_line((a, y + 10), (a + b, y + 10), color=c, width=rng.choice([8, 15]))
                elif kind == 'steps': p.draw_polyline([(a, y), (a + b, y), (a + b, y + h), (a, y + h), (a, y)], color=c, fill=f, width=w, closePath=True)
                elif kind in ('corner', 'stairs', 'frame'):     # lines connected to each other
                    pts = {'corner': [(a, y), (a, y + h), (a + b, y + h)], 'frame': [(a, y), (a + b, y), (a + b, y + h), (a + b / 2, y + h), (a + b / 2, y + h + 10), (a, y + h + 10), (a, y)],
                           'stairs': [(a, y), (a + b / 2, y), (a + b / 2, y + h), (a + b, y + h), (a + b, y + h + 9)]}[kind]
                    p.draw_polyline(pts, color=c, width=w, closePath=False); y += 10
                elif kind == 'dashed': p.draw_line((a, y), (a + b, y), color=c, width=w, dashes='[3 2] 0')
                y += h + rng.choice([25, 40])
            return words
        single(x, 'straight', rng, put, int(round_), dict(no=k, drawn=what, circle=round_))


def widths(x):
    """a line, and each side of a rectangle, has the width drawn"""
    rng = x.rng('widths')
    from pdf2docx.shape.Path import Path
    for k in range(40):
        w, line = rng.choice([.25, .5, 1, 2, 3.5]), rng.random() < .5
        doc = fitz.open(); p = doc.new_page()
        if line: p.draw_line((100, 100), (200, 100), width=w)
        else: p.draw_rect((100, 100, 200, 150), width=w)
        raw = p.get_drawings()[0]
        got = x.api(lambda: [s['width'] for s in Path({**raw, 'closePath': raw.get('closePath', False)}).to_shapes()])
        x.case('widths', (k,), dict(width=w, line=line))
        if not line and all(abs(v - 2 * w) < .01 for v in got): x.check(False, 'rect-border-twice', 'a side of a stroked rectangle has the width drawn', got=got, want=w)
        else: x.check(len(got) == (1 if line else 4) and all(abs(v - w) < .01 for v in got), 'widths', 'lines and sides have the width drawn', got=got, want=w, line=line)


def ratio(x):
    """a drawing of lines of which more than the share set are slanted is a picture, otherwise a table"""
    rng = x.rng('ratio')
    for k in range(40 * x.n):
        if x.left() < 0: break
        set_to = rng.choice([None, None, 0., .1, .3, .5, .8])
        limit = .2 if set_to is None else set_to
        nr, nc, m = rng.randint(1, 4), rng.randint(1, 4), rng.choice([0, 1, 1, 2, 3, 6])
        n = nr + nc + 2
        if m and abs(m / (m + n) - limit) < 1e-9: m += 1
        info = dict(no=k, lines=n, slanted=m, ratio=limit)
        def put(p):
            w, h = rng.choice([50, 70.2]), rng.choice([30, 41])
            for i in range(nr + 1): p.draw_line((80, 200 + i * h), (80 + nc * w, 200 + i * h))
            for i in range(nc + 1): p.draw_line((80 + i * w, 200), (80 + i * w, 200 + nr * h))
            for i in range(m): p.draw_line((80, 200 + h * rng.random()), (80 + w, 200 + h * rng.random()))
            return []
        picture = m / (m + n) > limit
        single(x, 'ratio', rng, put, int(picture), info, table=None if nr * nc == 1 else int(not picture), **({} if set_to is None else dict(curve_path_ratio=set_to)))


def rename(page, old, new):
    """a resource of the page by another name"""
    d = page.parent
    for o in {page.xref, int((d.xref_get_key(page.xref, 'Resources')[1] + ' ').split()[0]) if d.xref_get_key(page.xref, 'Resources')[0] == 'xref' else page.xref} | {int(v.split()[0]) for t, v in [d.xref_get_key(page.xref, 'Resources/XObject')] if t == 'xref'}:
        t = d.xref_object(o, compressed=True)
        if f'/{old} ' in t: d.update_object(o, t.replace(f'/{old} ', f'/{new} '))
    for o in page.get_contents(): d.update_stream(o, d.xref_stream(o).replace(f'/{old} '.encode(), f'/{new} '.encode()))


def forms(x):
    """drawings and text of pages shown in pages; text in all drawing modes"""
    rng = x.rng('forms')
    for k in range(30 * x.n):
        if x.left() < 0: break
        with scratch() as tmp:
            f = lambda n: os.path.join(tmp, n)
            docs, pages, boxes = [], [], []
            words, deep, mode, zoom = [], rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2]), 2.
            called = rng.choice(['fzFrm0', 'Fm0', 'Tmpl0', 'BTx', 'fTd', 'Tm', 'x-Td', 'Td.1'])        # may look like an operator
            st = rng.getstate()
            for text in (True, False):
                rng.setstate(st); boxes = []
                doc = fitz.open(); p = doc.new_page(width=595, height=842)
                src = fitz.open(); s = src.new_page(width=300, height=120)
                for i in range(2):
                    kind, b = graphic(s, rng, 20 + 150 * i, 20, 80, 60); boxes.append((kind, b + (100, 200, 100, 200)))
                    t = f'f{i}' + word(rng, 3)
                    if text: s.insert_text((b.x0 + b.width / 3, b.y0 + b.height / 2 + 3), t, fontsize=8, render_mode=mode); words.append(t)
                for _ in range(deep):
                    d2 = fitz.open(); s2 = d2.new_page(width=300, height=120); s2.show_pdf_page(s2.rect, src, 0); src = d2
                if text: p.insert_text((50, 50), LONG, fontsize=10); words += LONG.split()
                p.show_pdf_page(fitz.Rect(100, 200, 400, 320), src, 0)
                rename(p, 'fzFrm0', called)
                kind, b = graphic(p, rng, 100, 400, 100, 60); boxes.append((kind, b))
                t = 'own' + word(rng, 3)
                if text: p.insert_text((b.x0 + b.width / 3, b.y0 + b.height / 2 + 3), t, fontsize=8, render_mode=mode); words.append(t)
                if text: p.insert_text((50, 760), LONG, fontsize=10); words += LONG.split(); doc.save(f('a.pdf')); doc.close()
            convert(f('a.pdf'), f('a.docx'), kwargs=dict(clip_image_res_ratio=zoom))
            info = dict(no=k, deep=deep, mode=mode, called=called)
            x.case('forms', (k,), dict(drawings=[q for q, _ in boxes], **info))
            judge(x, 'forms', [g for s in found(f('a.docx')) for g in s], boxes, shown_page(p, zoom), zoom, info)
            got = sorted(w for e in Docx(f('a.docx')).body.iter(W + 'p') for w in ''.join(text_of(e)).split())
            x.check(got == sorted(words), 'forms-text', 'text on and around drawings is there, once', lost=[w for w in words if w not in got], more=[w for w in got if w not in words], **info)


def cells(x):
    """drawings in table cells"""
    rng = x.rng('cells')
    for k in range(30 * x.n):
        if x.left() < 0: break
        with scratch() as tmp:
            f = lambda n: os.path.join(tmp, n)
            doc, txt = fitz.open(), fitz.open()
            p, q = doc.new_page(width=595, height=842), txt.new_page(width=595, height=842)
            p.insert_text((50, 50), LONG, fontsize=10)
            g = Grid(rng, 60, 100, merge=rng.choice([0, 0, 1]), sizes=(1, 2, 2, 3), cw=(110, 150), rh=(80, 110))
            g.fill, g.open = {}, set()
            if g.how in ('boxes', 'path'): g.how = 'lines'      # else table and drawing are one drawing
            g.text = {c: [f'c{c[0]}{c[1]}'] for c in g.span}
            st = rng.getstate(); g.draw(p, rng)
            t, g.text = g.text, {}
            rng.setstate(st); g.draw(q, rng); g.text = t
            boxes, marks = [], {}
            for c in sorted(g.span):
                if rng.random() < .4: continue
                a, b, a1, b1 = g.box(c)
                st = rng.getstate()
                for page in (p, q): rng.setstate(st); kind, r = graphic(page, rng, a + 20, b + 30, 50, 30)
                boxes.append((kind, r)); marks[tuple(r)] = g.text[c][0]
            p.insert_text((50, 780), LONG, fontsize=10)
            doc.save(f('a.pdf')); doc.close()
            convert(f('a.pdf'), f('a.docx'))
            info = dict(no=k, table=(g.nr, g.nc, g.how), drawings=[q for q, _ in boxes])
            x.case('cells', (k,), info)
            got = [h for s in found(f('a.docx')) for h in s]
            judge(x, 'cells', got, boxes, shown_page(q, 3.), 3., info)
            x.check(all(h['cell'] is not None for h in got), 'cells-in', 'a drawing in a cell is in the table', **info)
            inside = sorted(''.join(text_of(h['cell'])).strip() for h in got if h['cell'] is not None)
            x.check(inside == sorted(marks.values()), 'cells-which', 'a drawing is in the cell it is drawn in', got=inside, want=sorted(marks.values()), **info)
            ts = [t for t in map(Tbl, Docx(f('a.docx')).body.iter(W + 'tbl')) if t.ruled()]
            x.check(len(ts) == 1, 'cells-table', 'the table is still a table', got=len(ts), **info)


def near(x):
    """drawings close together, and at the edge of the page"""
    rng = x.rng('near')
    for k in range(30 * x.n):
        if x.left() < 0: break
        with scratch() as tmp:
            f = lambda n: os.path.join(tmp, n)
            doc = fitz.open(); p = doc.new_page(width=595, height=842)
            boxes, y = [], rng.choice([1, 60])
            while y < 700:
                a, h = rng.choice([1, 40, 72.5]), rng.choice([15, 40, 60])
                while True:
                    w = rng.choice([20, 50, 90])
                    if a + w > 595: break
                    boxes.append(graphic(p, rng, a, y, w, h))
                    a += w + rng.choice([3, 8, 15, 30, 100])
                    if rng.random() < .3: break
                y += h + rng.choice([4, 10, 25, 60, 150])
            doc.save(f('a.pdf'))
            convert(f('a.pdf'), f('a.docx'))
            info = dict(no=k, drawings=[q for q, _ in boxes])
            x.case('near', (k,), info)
            pg = fitz.Rect(0, 0, 595, 842)
            judge(x, 'near', [h for s in found(f('a.docx')) for h in s], [(q, r & pg) for q, r in boxes], shown_page(p, 3.), 3., info, True)


def beside(x):
    """a drawing less than a point beside a ruled table is a picture; the table stays one"""
    rng = x.rng('beside')
    for k in range(20 * x.n):
        if x.left() < 0: break
        nr, nc, gap, side = rng.randint(1, 3), rng.randint(2, 3), rng.choice([.65, .7, .8, .9]), rng.choice(['left', 'right', 'top', 'bottom'])
        w, h = rng.choice([90, 70]), rng.choice([40, 60])
        info = dict(no=k, gap=gap, side=side, rows=nr, columns=nc)
        def put(p):
            x0, y0 = 150, 200
            x1, y1 = x0 + nc * w, y0 + nr * h
            for i in range(nr + 1): p.draw_line((x0, y0 + i * h), (x1, y0 + i * h), width=.2)
            for i in range(nc + 1): p.draw_line((x0 + i * w, y0), (x0 + i * w, y1), width=.2)
            words = []
            for i in range(nr):
                for j in range(nc): words.append(f'c{i}{j}' + word(rng, 3)); p.insert_text((x0 + j * w + 8, y0 + i * h + h / 2), words[-1], fontsize=9)
            r = 14.
            c = {'left': (x0 - gap - r, y0 + h / 2), 'right': (x1 + gap + r, y0 + h / 2), 'top': (x0 + w / 2, y0 - gap - r), 'bottom': (x0 + w / 2, y1 + gap + r)}[side]
            s = p.new_shape()
            for i in range(rng.choice([1, 6, 12])): s.draw_circle(c, r - i)
            s.finish(color=rng.choice(DARK), width=.2); s.commit()
            return words
        single(x, 'beside', rng, put, 1, info, table=1)
