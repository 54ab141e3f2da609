"""C13: page size and margins of the sections"""
import os
from .lib import *
from .pdfs import *
RULE = 'one case = one page (size, rotation, position of its content, margin factors)'
PARTS = ['margins', 'rich_pages', 'objects']
INCH = 72.0


def content_box(page):
    """box of everything displayed on the page, in displayed coordinates"""
    m = page.rotation_matrix
    boxes = []
    d = page.get_text('rawdict')
    for b in d['blocks']:
        if b['type'] == 1: boxes.append(fitz.Rect(b['bbox']) * m); continue
        for l in b['lines']:
            cs = [c for s in l['spans'] for c in s['chars']]
            if any(c['c'].strip() for c in cs):
                for s in l['spans']:
                    for c in s['chars']: boxes.append(fitz.Rect(c['bbox']) * m)
    return boxes


def build(x, rng, doc):
    """page with content of known extent; returns the boxes of rectangles and links drawn"""
    w, h = rng.choice([595, 612, 300, 842.4, 420.5, 1000, 1684]), rng.choice([842, 792, 400, 595.2, 700.7, 1500])
    page = Turned(doc, w, h, rng.choice([0, 0, 0, 90, 180, 270]))
    drawn = []
    kind = rng.choice(['text', 'text', 'mixed', 'mixed', 'empty', 'shape'])
    edge = rng.random()
    def pos(lim):
        r = rng.random()
        return rng.uniform(0, 12) if r < .3 else rng.uniform(lim * .1, lim * .4) if r < .7 else rng.uniform(12, 90)
    if kind != 'empty':
        if kind != 'shape':
            x0, y = pos(w), pos(h) + 10
            for i in range(rng.randint(1, 5)):
                t = sentence(rng, rng.randint(1, 4))
                page.insert_text((x0 + rng.choice([0, 0, 15]), y), t, fontsize=rng.choice([8, 10, 12]))
                y += rng.choice([14, 40, 120])
                if y > h - 5: break
            if rng.random() < .3: page.insert_text((w - fitz.get_text_length('right', fontsize=10) - pos(80), h - pos(60) - 3), 'right', fontsize=10)
        if kind != 'text':
            a, b = pos(w), pos(h)
            r = fitz.Rect(a, b, min(a + rng.uniform(40, w), w), min(b + rng.uniform(30, h * .4), h))
            if r.width > 8 and r.height > 8:
                if rng.random() < .75: page.draw_rect(r, color=None, fill=rng.choice(FILLS), overlay=False); drawn.append(r)
                else: page.insert_image(r, pixmap=pixmap(rng), keep_proportion=False)
    return page, drawn


def twips(e, name): return int(e.get(W + name)) / 20


def margins(x):
    """generated pages: size as displayed, margins from the extent of the content"""
    rng = x.rng('margins')
    with scratch() as tmp:
        for k in range(30 * x.n):
            if x.left() < 0: break
            pdf, out = os.path.join(tmp, 'm.pdf'), os.path.join(tmp, 'm.docx')
            doc = fitz.open()
            want = []
            n = rng.randint(1, 4)
            drawn = [build(x, rng, doc)[1] for _ in range(n)]
            doc.save(pdf); doc.close()
            moved = shift_some(pdf, rng)
            ft, fb = rng.choice([.5, .5, 0, 1.0, .8]), rng.choice([.5, .5, 0, 1.0, .3])
            kw = {} if (ft, fb) == (.5, .5) else dict(page_margin_factor_top=ft, page_margin_factor_bottom=fb)
            convert(pdf, out, **(dict(kwargs=kw) if kw else {}))
            doc = fitz.open(pdf)
            secs = Docx(out).sections()
            x.check(len(secs) == n, 'count', 'one section per page', pages=n, sections=len(secs))
            for i, ((s, _), page) in enumerate(zip(secs, doc)):
                sz, mar = s.find(W + 'pgSz'), s.find(W + 'pgMar')
                size = (twips(sz, 'w'), twips(sz, 'h'))
                info = dict(page=i, size=[round(v, 2) for v in page.rect[2:]], rotation=page.rotation, moved_origin=i in moved, factors=(ft, fb))
                x.case('page', (info['size'][0], info['size'][1], page.rotation, k, i), info)
                x.check(all(abs(p - q) <= .06 for p, q in zip(size, page.rect[2:])), 'size', 'the section has the size of the page as displayed', got=size, **info)
                got = [twips(mar, v) for v in ('left', 'right', 'top', 'bottom')]
                boxes = content_box(page) + drawn[i]
                w, h = page.rect[2:]
                if not boxes:
                    x.check(got == [INCH] * 4, 'empty', 'a page without content has margins of one inch', got=got, **info); continue
                u0, v0, u1, v1 = [f(b[j] for b in boxes) for j, f in enumerate((min, min, max, max))]
                exp = [u0, w - u1 - 1, v0 * ft, (h - v1) * fb]
                exp = [min(max(e, 0), INCH) for e in exp]
                x.check(all(0 <= g <= INCH for g in got), 'range', 'margins between nothing and one inch', got=got, **info)
                pics = [fitz.Rect(b['bbox']) * page.rotation_matrix for b in page.get_text('rawdict')['blocks'] if b['type'] == 1]
                if any(p.intersects(b) for p in pics for b in boxes if b != p): continue       # a picture behind or over text floats
                x.check(all(abs(g - e) <= .22 for g, e in zip(got, exp)), 'value', 'margins reach to the content (top and bottom by their factors)', got=got, expected=[round(e, 2) for e in exp], **info)
            doc.close()


def rich_pages(x):
    """all kinds of content: margins never exceed the distance of any text or image to the page edge"""
    rng = x.rng('rich')
    with scratch() as tmp:
        for k in range(6 * x.n):
            if x.left() < 0: break
            pdf, out = os.path.join(tmp, 'r.pdf'), os.path.join(tmp, 'r.docx')
            rich_pdf(pdf, rng, 3)
            convert(pdf, out)
            doc = fitz.open(pdf)
            for i, ((s, _), page) in enumerate(zip(Docx(out).sections(), doc)):
                sz, mar = s.find(W + 'pgSz'), s.find(W + 'pgMar')
                w, h = page.rect[2:]
                info = dict(page=i, size=(w, h), rotation=page.rotation)
                x.case('rich', (k, i), info)
                x.check(abs(twips(sz, 'w') - w) <= .06 and abs(twips(sz, 'h') - h) <= .06, 'size', 'the section has the size of the page as displayed', **info)
                boxes = [b for b in content_box(page) if b.x0 >= 0 and b.y0 >= 0 and b.x1 <= w and b.y1 <= h]
                got = [twips(mar, v) for v in ('left', 'right', 'top', 'bottom')]
                gap = [min(b.x0 for b in boxes), min(w - b.x1 for b in boxes), min(b.y0 for b in boxes), min(h - b.y1 for b in boxes)]
                x.check(all(0 <= g <= INCH for g in got), 'range', 'margins between nothing and one inch', got=got, **info)
                x.check(all(g <= d + .25 for g, d in zip(got, gap)), 'inside', 'no margin covers content', margins=got, distance=[round(g, 2) for g in gap], **info)
            doc.close()


def objects(x):
    """the margin computation itself on random boxes of the content, and the working area"""
    from pdf2docx.page.Page import Page
    rng = x.rng('objects')
    class Fake(list):
        def __init__(self, box): super().__init__([1] if box else []); self.bbox = box or fitz.Rect()
    def make(w, h, b, s, ft, fb):
        p = Page(); p.width, p.height = w, h
        p.settings = p.init_settings(dict(page_margin_factor_top=ft, page_margin_factor_bottom=fb))
        p.layout.blocks, p.layout.shapes = Fake(b), Fake(s)
        p._margin = p._cal_margin()
        return p
    x.api(lambda: make(100, 100, fitz.Rect(1, 1, 2, 2), None, .5, .5))
    for k in range(1500 * x.n):
        w, h = rng.uniform(50, 1000), rng.uniform(50, 1000)
        def box():
            if rng.random() < .2: return None
            a, b = rng.uniform(-20, w), rng.uniform(-20, h)
            return fitz.Rect(a, b, rng.uniform(a + 1, w + 30), rng.uniform(b + 1, h + 30))
        b, s = box(), box()
        ft, fb = rng.choice([0, .5, 1, rng.random()]), rng.choice([0, .5, 1, rng.random()])
        p = make(w, h, b, s, ft, fb)
        got = p.margin
        x.case('objects', k)
        info = dict(page=(w, h), blocks=b and tuple(b), shapes=s and tuple(s), factors=(ft, fb), got=tuple(got))
        if not b and not s: exp = [INCH] * 4
        else:
            u = (b or s) | (s or b)
            exp = [min(max(e, 0), INCH) for e in (u.x0, w - u.x1 - 1, v0(u.y0) * ft, v0(h - u.y1) * fb)]
        x.check(len(got) == 4 and all(abs(g - e) <= .06 for g, e in zip(got, exp)), 'objects', 'margins reach to the content', expected=exp, **info)
        l, r, t, m = got
        x.check(all(abs(a - e) < 1e-6 for a, e in zip(p.working_bbox, (l, t, w - r, h - m))), 'objects', 'the working area is the page without its margins', **info)


def v0(v): return max(v, 0)
