"""Random PDF pages exercising every kind of layout element."""
import os
import fitz
from .lib import word, sentence
FONTS = ['helv', 'tiro', 'cour', 'hebo', 'tibi', 'heit']
COLORS = [(0, 0, 0), (1, 0, 0), (0, 0, 1), (0.2, 0.5, 0.1), (0.05, 0.05, 0.6), (0, 1, 1)]
FILLS = [(1, 1, 0), (0.8, 0.9, 1), (0.02, 0.8, 0.6), (1, 0, 0), (0.9, 0.9, 0.9), (0, 1, 0)]


def pixmap(rng, w=12, h=9, alpha=False):
    p = fitz.Pixmap(fitz.csRGB, fitz.IRect(0, 0, w, h), alpha)
    c = tuple(rng.randint(0, 255) for _ in range(3))
    p.set_rect(p.irect, c + ((255,) if alpha else ()))
    for _ in range(4):
        x, y = rng.randrange(w), rng.randrange(h)
        p.set_pixel(x, y, tuple(rng.randint(0, 255) for _ in range(3)) + ((128,) if alpha else ()))
    return p


def paragraph(page, rng, y, mark=''):
    size = rng.choice([8, 9.3, 10, 10.5, 11, 12, 14, 7.25, 16])
    font, col = rng.choice(FONTS), rng.choice(COLORS)
    x = rng.choice([60, 72, 72, 72, 90, 120])
    nl = rng.randint(1, 4)
    for i in range(nl):
        t = sentence(rng, rng.randint(2, 8))
        if i == 0: t = mark + ' ' + t
        w = fitz.get_text_length(t, font, size)
        if x + w > 540: t = t[:40]; w = fitz.get_text_length(t, font, size)
        xx = x + (rng.choice([0, 0, 20]) if i == 0 else 0)
        page.insert_text((xx, y), t, fontname=font, fontsize=size, color=col)
        deco = rng.random()
        if deco < .12: page.draw_line((xx, y + 1.5), (xx + w * rng.choice([1, .5]), y + 1.5), color=rng.choice(COLORS), width=.7)
        elif deco < .2: page.draw_line((xx, y - size * .3), (xx + w * .6, y - size * .3), color=col, width=.7)
        elif deco < .3: page.draw_rect((xx + w * .2, y - size * .9, xx + w * .7, y + size * .25), color=None, fill=rng.choice(FILLS), overlay=False)
        elif deco < .38: page.insert_link(dict(kind=2, uri=f'https://{word(rng)}.org/{word(rng)}', **{'from': fitz.Rect(xx, y - size, xx + w * .5, y + 3)}))
        elif deco < .45: page.insert_text((xx + w + 40, y), word(rng), fontname=font, fontsize=size)
        elif deco < .5: page.insert_text((xx + w, y - 3), '2', fontname=font, fontsize=size * .6)
        y += size * 1.3
    return y + rng.choice([4, 8, 20])


def table(page, rng, y, mark='', nested=True):
    """ruled table; returns the y below it"""
    nr, nc = rng.randint(1, 4), rng.randint(1, 4)
    x0 = rng.choice([60, 72, 100])
    ws, hs = [rng.choice([60, 80, 110]) for _ in range(nc)], [rng.choice([22, 30, 45]) for _ in range(nr)]
    xs, ys = [x0], [y]
    for w in ws: xs.append(xs[-1] + w)
    for h in hs: ys.append(ys[-1] + h)
    lw, col = rng.choice([.5, 1, 1, 2]), rng.choice(COLORS)
    merged = None
    if nr > 1 and nc > 1 and rng.random() < .4: merged = (rng.randrange(nr), rng.randrange(nc - 1))     # merged with the cell to its right
    for r in range(nr):
        for c in range(nc):
            if rng.random() < .2: page.draw_rect((xs[c], ys[r], xs[c + 1], ys[r + 1]), color=None, fill=rng.choice(FILLS))
    for r in range(nr + 1): page.draw_line((xs[0], ys[r]), (xs[-1], ys[r]), color=col, width=lw)
    for c in range(nc + 1):
        if merged and c == merged[1] + 1:
            if merged[0] > 0: page.draw_line((xs[c], ys[0]), (xs[c], ys[merged[0]]), color=col, width=lw)
            if merged[0] < nr - 1: page.draw_line((xs[c], ys[merged[0] + 1]), (xs[c], ys[-1]), color=col, width=lw)
        else: page.draw_line((xs[c], ys[0]), (xs[c], ys[-1]), color=col, width=lw)
    for r in range(nr):
        for c in range(nc):
            if merged == (r, c - 1): continue
            if nested and hs[r] == 45 and ws[c] == 110 and rng.random() < .5:
                a, b = xs[c] + 10, ys[r] + 8
                for k in range(3): page.draw_line((a, b + 14 * k), (a + 88, b + 14 * k), width=.5)
                for k in range(3): page.draw_line((a + 44 * k, b), (a + 44 * k, b + 28), width=.5)
                page.insert_text((a + 3, b + 10), word(rng, 4), fontsize=7)
                continue
            if rng.random() < .85: page.insert_text((xs[c] + 4, ys[r] + 14), (mark + ' ' if (r, c) == (0, 0) else '') + word(rng, 5), fontsize=9)
    return ys[-1] + rng.choice([15, 30, 2])


def stream_table(page, rng, y):
    for r in range(rng.randint(2, 4)):
        for c in range(3): page.insert_text((72 + 150 * c, y), word(rng, 6), fontsize=10)
        y += 18
    return y + 15


def four_lines(page, r, **k):
    """a rectangle drawn as four lines in one path"""
    s, r = page.new_shape(), fitz.Rect(r)
    pts = [r.tl, r.tr, r.br, r.bl, r.tl]
    for a, b in zip(pts, pts[1:]): s.draw_line(a, b)
    s.finish(**k); s.commit()


def shaded_table(page, rng, y):
    """no borders, cells by shading"""
    for r in range(2):
        for c in range(2):
            page.draw_rect((72 + 120 * c, y + 25 * r, 192 + 120 * c, y + 25 * r + 25), color=None, fill=FILLS[(r + 2 * c) % len(FILLS)])
            page.insert_text((80 + 120 * c, y + 25 * r + 15), word(rng, 5), fontsize=9)
    return y + 70


def image(page, rng, y, inline=False):
    w, h = rng.choice([(60, 45), (100, 40), (24, 18)])
    x = rng.choice([72, 150, 300])
    alpha = rng.random() < .3
    page.insert_image((x, y, x + w, y + h), pixmap=pixmap(rng, alpha=alpha), keep_proportion=False)
    if inline: page.insert_text((x + w + 4, y + h - 2), sentence(rng, 2), fontsize=10)
    elif rng.random() < .4: page.insert_text((x + 5, y + h / 2), sentence(rng, 3), fontsize=12)     # text on the picture: floating
    return y + h + 15


def vector(page, rng, y):
    s = page.new_shape()
    for _ in range(3):
        x = rng.randint(80, 300)
        s.draw_circle((x, y + 25), rng.randint(8, 22)); s.finish(color=rng.choice(COLORS), fill=rng.choice(FILLS))
    s.commit()
    return y + 65


def rich_page(doc, rng, mark='', kinds=None, rotate=None):
    page = doc.new_page(width=rng.choice([595, 612, 600.5]), height=rng.choice([842, 792, 700]))
    fill_page(page, rng, mark, kinds)
    if rng.random() < .08: page.insert_text((560, 500), sentence(rng, 3), rotate=90)
    if rotate is None: rotate = rng.choice([0] * 9 + [90, 180, 270])
    if rotate: turn(doc, page, rotate)
    return page


def turn(doc, page, deg):
    """store the page turned, with /Rotate so that it is displayed as before (links are dropped)"""
    for l in page.get_links(): page.delete_link(l)
    w, h = page.rect.width, page.rect.height
    m = {90: f'0 1 -1 0 {h} 0', 180: f'-1 0 0 -1 {w} {h}', 270: f'0 -1 1 0 0 {w}'}[deg]
    page.clean_contents()
    xref = page.get_contents()[0]
    doc.update_stream(xref, b'q ' + m.encode() + b' cm\n' + doc.xref_stream(xref) + b'\nQ')
    if deg != 180: page.set_mediabox(fitz.Rect(0, 0, h, w))
    page.set_rotation(deg)


def shift(doc, page, dx, dy, crop):
    """move the origin of the page to (dx, dy); the page is displayed as before, as all of its media box or as the part shown of a larger one"""
    w, h, x = page.mediabox.width, page.mediabox.height, page.xref
    box = f'[{dx} {dy} {dx + w} {dy + h}]'
    doc.xref_set_key(x, 'MediaBox', f'[{dx - 40} {dy - 30} {dx + w + 20} {dy + h + 60}]' if crop else box)
    if crop: doc.xref_set_key(x, 'CropBox', box)
    for l in page.annot_xrefs():
        r = [float(v) for v in doc.xref_get_key(l[0], 'Rect')[1].strip('[]').split()]
        doc.xref_set_key(l[0], 'Rect', f'[{r[0] + dx} {r[1] + dy} {r[2] + dx} {r[3] + dy}]')
    c = page.get_contents()
    if not c: return
    doc.update_stream(c[0], b'q 1 0 0 1 %g %g cm\n' % (dx, dy) + b'\n'.join(doc.xref_stream(i) for i in c) + b'\nQ')
    doc.xref_set_key(x, 'Contents', f'{c[0]} 0 R')


def shift_some(path, rng, p=.4):
    """shift some pages of the file"""
    doc = fitz.open(path)
    done = [page.number for page in doc if rng.random() < p and (shift(doc, page, rng.randint(-90, 90), rng.randint(-90, 90), rng.random() < .5) or True)]
    doc.save(path + '~'); doc.close(); os.replace(path + '~', path)
    return done


def rich_pdf(path, rng, n, **k):
    doc = fitz.open()
    for i in range(n): rich_page(doc, rng, f'PAGE{i}X', **k)
    doc.save(path); doc.close()


class Turned:
    """a page with /Rotate on which everything is drawn so that it is displayed as on an unrotated page of the given size"""
    def __init__(self, doc, w, h, deg):
        self.page = doc.new_page(width=w if deg in (0, 180) else h, height=h if deg in (0, 180) else w)
        self.page.set_rotation(deg)
        self.m, self.deg, self.rect = self.page.derotation_matrix, deg, fitz.Rect(0, 0, w, h)
    def pt(self, p): return fitz.Point(p) * self.m
    def insert_text(self, p, t, rotate=0, **k): self.page.insert_text(self.pt(p), t, rotate=(rotate + self.deg) % 360, **k)
    def draw_line(self, a, b, **k): self.page.draw_line(self.pt(a), self.pt(b), **k)
    def draw_rect(self, r, **k): self.page.draw_rect(fitz.Rect(r) * self.m, **k)
    def insert_image(self, r, **k): self.page.insert_image(fitz.Rect(r) * self.m, rotate=(-self.deg) % 360, **k)
    def insert_link(self, d): self.page.insert_link(dict(d, **{'from': fitz.Rect(d['from']) * self.m}))
    def new_shape(self):
        s, pt = self.page.new_shape(), self.pt
        class S:
            def draw_circle(_, p, r): s.draw_circle(pt(p), r)
            def draw_line(_, a, b): s.draw_line(pt(a), pt(b))
            def finish(_, **k): s.finish(**k)
            def commit(_): s.commit()
        return S()


def fill_page(page, rng, mark='', kinds=None):
    """content of rich_page on a page (or a Turned one)"""
    y = rng.choice([50, 72, 90])
    first = True
    for _ in range(rng.randint(2, 8)):
        k = rng.choice(kinds or ['p', 'p', 'p', 'p', 't', 't', 's', 'i', 'i', 'h', 'v'])
        m = mark if first else ''
        if y > page.rect.height - 150: break
        if first and k not in ('p', 't'): k = 'p'
        if k == 'p': y = paragraph(page, rng, y, m)
        elif k == 't': y = table(page, rng, y, m)
        elif k == 's': y = stream_table(page, rng, y + 10)
        elif k == 'h': y = shaded_table(page, rng, y)
        elif k == 'i': y = image(page, rng, y, rng.random() < .4)
        elif k == 'v': y = vector(page, rng, y)
        first = False
    return y
