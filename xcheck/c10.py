"""C10: every picture of a page, once, with its pixels, size and place"""
import os, copy, random, zipfile
import numpy as np, cv2
from .lib import *
from .pdfs import *
from .c05 import Grid
from .c19 import LONG
RULE = 'one case = one page of pictures (kind of picture, pixels, size, place, number of places) among text and tables'
PARTS = ['pages', 'kinds', 'edges', 'turned', 'repeated']
KINDS = ['rgb', 'rgba', 'gray', 'jpeg', 'cmyk', 'graya', 'mask', 'soft', 'cmyka', 'stencil', 'softgray', 'spot', 'lab', 'palette', 'calrgb', 'calgray', 'bits', 'negative']
SPACES = ('spot', 'lab', 'palette', 'calrgb', 'calgray', 'bits', 'negative')       # colours in other ways
MASKED = ('soft', 'cmyka', 'stencil', 'softgray')


class Pic:
    """a picture: its bytes, and what it shows on white, as an array of RGB values"""
    def __init__(self, rng, kind=None):
        self.kind = kind or rng.choice(KINDS)
        w, h = self.w, self.h = rng.choice([(8, 8), (16, 8), (8, 24), (24, 16), (40, 32)])
        a = np.zeros((h, w, 3), np.uint8)
        for i in range(0, h, 4):
            for j in range(0, w, 4): a[i:i + 4, j:j + 4] = [rng.randint(0, 255) for _ in range(3)]
        if self.kind in ('gray', 'graya', 'softgray'): a = np.repeat(a[:, :, :1], 3, 2)
        self.tol, self.shows, self.data = 3, a.astype(float), None
        if self.kind in ('rgba', 'graya'):
            al = np.zeros((h, w), np.uint8)
            for i in range(0, h, 4):
                for j in range(0, w, 4): al[i:i + 4, j:j + 4] = rng.choice([0, 255, 255, 64, 128, 200])
            self.shows = a * (al[:, :, None] / 255.) + 255 - al[:, :, None].astype(float)
            self.data = cv2.imencode('.png', np.dstack([a[:, :, ::-1], al]))[1].tobytes()
        elif self.kind == 'gray': self.data = cv2.imencode('.png', a[:, :, 0])[1].tobytes()
        elif self.kind == 'jpeg':
            self.data = cv2.imencode('.jpg', a[:, :, ::-1], [cv2.IMWRITE_JPEG_QUALITY, 95])[1].tobytes()
            q = fitz.Pixmap(self.data); self.tol = 6
            self.shows = np.frombuffer(q.samples, np.uint8).reshape(q.height, q.width, 3).astype(float)
        elif self.kind == 'cmyk':
            p = fitz.Pixmap(fitz.csCMYK, fitz.Pixmap(cv2.imencode('.png', a[:, :, ::-1])[1].tobytes()))
            q = fitz.Pixmap(fitz.csRGB, p)
            self.pix, self.tol = p, 6
            self.shows = np.frombuffer(q.samples, np.uint8).reshape(q.height, q.stride)[:, :3 * q.width].reshape(q.height, q.width, 3).astype(float)
        elif self.kind in MASKED:      # transparent by a mask of its own size
            p = fitz.Pixmap(cv2.imencode('.png', a[:, :, ::-1] if self.kind != 'softgray' else a[:, :, 0])[1].tobytes())
            if self.kind == 'cmyka':
                p = fitz.Pixmap(fitz.csCMYK, p); q = fitz.Pixmap(fitz.csRGB, p)
                a = np.frombuffer(q.samples, np.uint8).reshape(q.height, q.stride)[:, :3 * q.width].reshape(q.height, q.width, 3)
            self.pix, self.tol = p, 8
            f = rng.choice([1, 1, 2, .5, .25]) if self.kind != 'stencil' else rng.choice([1, 2])
            mw, mh = self.mw, self.mh = max(1, int(w * f)), max(1, int(h * f))
            if rng.random() < .3: mh = self.mh = h
            if self.kind == 'stencil': mw = self.mw = (mw + 7) // 8 * 8
            v = [0, 255] if self.kind == 'stencil' else [0, 255, 100, 180]
            al = np.zeros((mh, mw), np.uint8)
            by, bx = max(1, mh // 2), max(8 if self.kind == 'stencil' else 1, mw // 2)
            for i in range(0, mh, by):
                for j in range(0, mw, bx): al[i:i + by, j:j + bx] = rng.choice(v)
            self.al, self.rgb, self.shows, self.size = al, a, None, (max(mh, h), max(mw, w))
        elif self.kind in SPACES:
            k, n, self.extra, self.depth = self.kind, 1, '', 8
            if k == 'spot': self.cs = '[/Separation/Spot/DeviceCMYK<</FunctionType 2/Domain[0 1]/C0[0 0 0 0]/C1[%g %g %g 0]/N 1>>]' % tuple(rng.random() for _ in range(3))
            elif k == 'lab': self.cs, n = '[/Lab<</WhitePoint[.95 1 1.09]/Range[-100 100 -100 100]>>]', 3
            elif k == 'palette': self.cs = '[/Indexed/DeviceRGB 255 <' + bytes(rng.randrange(256) for _ in range(768)).hex() + '>]'
            elif k == 'calrgb': self.cs, n = '[/CalRGB<</WhitePoint[.9505 1 1.089]/Gamma[2.2 2.2 2.2]>>]', 3
            elif k == 'calgray': self.cs = '[/CalGray<</WhitePoint[.9505 1 1.089]>>]'
            elif k == 'bits': self.cs, self.depth = '/DeviceGray', 1
            else: self.cs, n, self.extra = '/DeviceCMYK', 4, '/Decode[1 0 1 0 1 0 1 0]'
            v = [[[rng.randrange(256) for _ in range(n)] for _ in range(w // 4)] for _ in range(h // 4)]
            v = np.repeat(np.repeat(np.array(v, np.uint8), 4, 0), 4, 1)
            self.raw = np.packbits(v[:, :, 0] > 127, axis=1).tobytes() if k == 'bits' else v.tobytes()
            d = fitz.open(); p = d.new_page(width=2 * w, height=2 * h)      # what PyMuPDF shows
            self.put(p, p.rect); q = p.get_pixmap(alpha=False)
            self.tol, self.shows = 8, np.frombuffer(q.samples, np.uint8).reshape(q.height, q.stride)[:, :3 * q.width].reshape(q.height, q.width, 3)[1::2, 1::2].astype(float)
        elif self.kind == 'mask':
            self.bits = [[rng.random() < .5 for _ in range(w // 8)] for _ in range(h)]       # of 8 equal bits
            self.color = rng.choice([(0, 0, 1), (1, 0, 0), (0, .5, 0)])
            self.shows = None
        else: self.data = cv2.imencode('.png', a[:, :, ::-1])[1].tobytes()

    def twin(self, rng):
        """the same pixels with another mask"""
        t = copy.copy(self); t.al = np.vectorize(lambda v: 255 - v)(self.al).astype(np.uint8)
        return t

    def put(self, page, r, xref=0):
        r, d = fitz.Rect(r), page.parent
        def stream(obj, data):
            x = d.get_new_xref()
            d.update_object(x, '<</Type/XObject/Subtype/Image/BitsPerComponent ' + obj + '>>'); d.update_stream(x, data)
            return x
        if self.kind == 'mask':
            x = stream(f'1/Width {self.w}/Height {self.h}/ImageMask true', bytes(0 if b else 255 for row in self.bits for b in row))
            return self.draw(page, r, x)
        if self.kind in SPACES:
            return self.draw(page, r, stream(f'{self.depth}/Width {self.w}/Height {self.h}/ColorSpace {self.cs}{self.extra}', self.raw))
        if self.kind in MASKED:
            if self.kind == 'stencil': y = 'Mask %d 0 R' % stream(f'1/Width {self.mw}/Height {self.mh}/ImageMask true', np.packbits(self.al == 0, axis=1).tobytes())
            else: y = 'SMask %d 0 R' % stream(f'8/Width {self.mw}/Height {self.mh}/ColorSpace/DeviceGray', self.al.tobytes())
            p = self.pix
            return self.draw(page, r, stream(f'8/Width {self.w}/Height {self.h}/ColorSpace/{p.colorspace.name}/{y}', p.samples))
        k = dict(pixmap=self.pix) if self.kind == 'cmyk' else dict(stream=self.data)
        if xref: k = dict(xref=xref)
        return page.insert_image(r, keep_proportion=False, **k)

    def draw(self, page, r, x):
        d = page.parent
        o, path = page.xref, ['Resources', 'XObject', f'Msk{x}']
        while len(path) > 1:
            t, v = d.xref_get_key(o, path[0])
            if t == 'null': d.xref_set_key(o, path[0], '<<>>')
            if t == 'xref': o, path = int(v.split()[0]), path[1:]
            else:
                n = d.get_new_xref(); d.update_object(n, v if t == 'dict' else '<<>>'); d.xref_set_key(o, path[0], f'{n} 0 R')
        d.xref_set_key(o, path[0], f'{x} 0 R')
        c = d.get_new_xref()
        d.update_object(c, '<<>>')
        H = page.mediabox.height
        d.update_stream(c, ('q %g %g %g rg %g 0 0 %g %g %g cm /Msk%d Do Q\n' % (*getattr(self, 'color', (0, 0, 0)), r.width, r.height, r.x0, H - r.y1, x)).encode())
        d.xref_set_key(page.xref, 'Contents', '[' + ' '.join(f'{k} 0 R' for k in page.get_contents() + [c]) + ']')
        return x


def decode(b):
    """what a picture of the document shows on white"""
    a = cv2.imdecode(np.frombuffer(b, np.uint8), cv2.IMREAD_UNCHANGED)
    if a is None: return None
    if a.ndim == 2: a = np.repeat(a[:, :, None], 3, 2)
    if a.shape[2] == 4:
        al = a[:, :, 3:].astype(float) / 255
        return a[:, :, 2::-1] * al + 255 * (1 - al)
    return a[:, :, ::-1].astype(float)


def found(path):
    """pictures of the document: per section [(shows, width, height, x, y or None, in a table, xml)]"""
    d = Docx(path)
    out = []
    with zipfile.ZipFile(path) as z:
        for s, es in d.sections():
            cur = []
            for e in (x for t in es for x in t.iter(WP + 'inline', WP + 'anchor')):
                x = e.find(WP + 'extent')
                b = next(e.iter(A + 'blip'))
                q = next((v for v in e.iter() if v.tag.endswith('}spPr')), None)
                ext = next((v for v in q.iter(A + 'ext')), None) if q is not None else None
                inner = (int(ext.get('cx')) / 12700, int(ext.get('cy')) / 12700) if ext is not None else None
                at = None
                if e.tag == WP + 'anchor':
                    off = [int(o.text) / 12700 for o in e.iter(WP + 'posOffset')]
                    frm = [o.get('relativeFrom') for n in ('positionH', 'positionV') for o in e.iter(WP + n)]
                    at = (off, frm)
                cell = next((p for p in e.iterancestors(W + 'tc')), None)
                cur.append(dict(shows=decode(z.read('word/' + d.rels[b.get(R + 'embed')])), w=int(x.get('cx')) / 12700, h=int(x.get('cy')) / 12700, inner=inner, at=at, cell=cell, para=next(e.iterancestors(W + 'p'))))
            out.append(cur)
    return out


def same_shown(pic, a, bg=None):
    if a is None: return False
    if pic.shows is None and pic.kind != 'mask':      # masked: the middle of every patch of colour and mask
        if a.shape[:2] != pic.size: return False
        H, W = pic.size
        h, w = pic.rgb.shape[:2]
        mh, mw = pic.al.shape
        for i in range(H):
            for j in range(W):
                v, u = (i + .5) / H, (j + .5) / W
                if abs(v * h / 4 - round(v * h / 4)) * 4 * H / h < 1.5 * max(1, H / h) or abs(u * w / 4 - round(u * w / 4)) * 4 * W / w < 1.5 * max(1, W / w): continue
                by, bx = max(1, mh // 2), max(8 if pic.kind == 'stencil' else 1, mw // 2)
                if any(abs(v * mh - e) * H / mh < 1.5 * max(1, H / mh) for e in list(range(by, mh, by))) or any(abs(u * mw - e) * W / mw < 1.5 * max(1, W / mw) for e in list(range(bx, mw, bx))): continue
                al = pic.al[int(v * mh), int(u * mw)] / 255.
                want = pic.rgb[int(v * h), int(u * w)] * al + 255 * (1 - al)
                if float(np.abs(a[i, j] - want).max()) > pic.tol: return False
        return True
    s = pic.shows
    if pic.kind in SPACES: return a.shape == s.shape and all(float(np.abs(a[i::4, j::4] - s[i::4, j::4]).max()) <= pic.tol for i in (1, 2) for j in (1, 2))      # the middle of every patch
    return a.shape == s.shape and float(np.abs(a - s).max()) <= pic.tol


def compare(x, key, want, got, info):
    """want: [(pic, rect, floating or None if either will do, cell mark)]"""
    left = list(range(len(got)))
    for pic, r, fl, mark in want:
        if pic.kind == 'mask': hit = [i for i in left if abs(got[i]['w'] - r.width) < 1 and abs(got[i]['h'] - r.height) < 1 and got[i]['shows'] is not None and got[i]['shows'].shape[:2] != (pic.h, pic.w)]
        else:
            hit = [i for i in left if same_shown(pic, got[i]['shows'])]
            hit.sort(key=lambda i: abs(got[i]['w'] - r.width) + abs(got[i]['h'] - r.height) + (sum(abs(a - b) for a, b in zip(got[i]['at'][0], r)) if got[i]['at'] else 0) + (50 if fl is not None and bool(got[i]['at']) != fl else 0))
        if not x.check(bool(hit), key + '-there', 'a picture of the page is there with its pixels', kind=pic.kind, at=tuple(r), px=(pic.w, pic.h), have=[(g['shows'].shape if g['shows'] is not None else None, round(g['w']), round(g['h'])) for g in got], **info): continue
        i = hit[0]; left.remove(i); g = got[i]
        if pic.kind == 'mask':
            # drawn from the page: every cell of 8 bits in the colour or white
            n = g['shows']; ok = True
            for a in range(pic.h):
                for b in range(pic.w // 8):
                    o = getattr(pic, 'full', r)         # all of the picture; displayed is r
                    u, v = o.y0 + (a + .5) * o.height / pic.h - r.y0, o.x0 + (b + .5) * o.width / (pic.w // 8) - r.x0
                    if not (1 < u < r.height - 1 and 1 < v < r.width - 1): continue
                    c = n[int(u * n.shape[0] / r.height), int(v * n.shape[1] / r.width)]
                    w = [255 * v for v in pic.color] if pic.bits[a][b] else [255] * 3
                    ok = ok and max(abs(c[k] - w[k]) for k in range(3)) <= 90
            if getattr(pic, 'full', r).height / pic.h >= 2: x.check(ok, key + '-mask', 'a picture of one colour shows that colour', at=tuple(r), **info)
        x.check(abs(g['w'] - r.width) <= .12 and abs(g['h'] - r.height) <= .12, key + '-size', 'as large as on the page', kind=pic.kind, got=(g['w'], g['h']), want=(r.width, r.height), **info)
        if g['inner']: x.check(abs(g['inner'][0] - g['w']) < .01 and abs(g['inner'][1] - g['h']) < .01, key + '-frame', 'the picture fills its frame', inner=g['inner'], frame=(g['w'], g['h']), **info)
        if fl is not None: x.check(bool(g['at']) == fl, key + '-float', 'floating if it overlaps other content, else in line', floating=bool(g['at']), want=fl, at=tuple(r), **info)
        if g['at']:
            (off, frm) = g['at']
            x.check(frm == ['page', 'page'] and len(off) == 2 and abs(off[0] - r.x0) <= .12 and abs(off[1] - r.y0) <= .12, key + '-at', 'a floating picture is at its place on the page', got=off, frm=frm, want=(r.x0, r.y0), **info)
        if mark is not None: x.check(g['cell'] is not None and mark in ''.join(text_of(g['cell'])), key + '-cell', 'a picture is in the cell it is drawn in', cell=None if g['cell'] is None else ''.join(text_of(g['cell'])), want=mark, **info)
    x.check(not left, key + '-once', 'no picture more than on the page', extra=[(round(got[i]['w']), round(got[i]['h'])) for i in left], **info)


def draw_page(p, rng, no, kinds=None, mask=True):
    """a page of pictures; returns what is expected"""
    ks = [k for k in (kinds or KINDS) if mask or k != 'mask']
    want = []
    y, k = 45, 0
    p.insert_text((50, y), LONG + f' {no}', fontsize=10); y += rng.choice([14, 25])
    H = p.rect.height
    shared = None
    while y < H - 150:
        what = rng.choice(['alone', 'alone', 'row', 'over', 'behind', 'cell', 'twice', 'text', 'pair', 'stack', 'small', 'form', 'twins', 'hidden'])
        w, h = rng.choice([(40, 30), (120.5, 33), (30, 60), (200, 80), (77, 77)])
        xx = rng.choice([50, 72, 133.3, 300])
        if what == 'text':
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 14
        elif what == 'hidden':       # in a layer that is not displayed, or is
            off = rng.random() < .6
            layer = p.parent.add_ocg(f'layer {no} {k}', on=not off)
            pic = Pic(rng, rng.choice(['rgb', 'rgba', 'gray', 'jpeg', 'cmyk'])); r = fitz.Rect(xx, y, xx + w, y + h)
            d = dict(pixmap=pic.pix) if pic.kind == 'cmyk' else dict(stream=pic.data)
            p.insert_image(r, keep_proportion=False, oc=layer, **d)
            if not off: want.append((pic, r, False, None)); y += h + 10
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        elif what == 'twins':       # the same pixels with different masks
            pic = Pic(rng, rng.choice(MASKED))
            while pic.w < 16: pic = Pic(rng, pic.kind)
            flat = rng.random() < .3; r = fitz.Rect(xx, y, xx + w, y + h)
            for d in range(rng.choice([2, 2, 3]) if not flat else 2):
                if d and not flat:
                    if r.y1 + 2 * h > H - 110: break
                    r = fitz.Rect(r.x0, r.y1 + 30, r.x1, r.y1 + 30 + h)
                q = [pic, pic.twin(rng), Pic(rng, 'rgb')][d]
                q.put(p, r); want.append((q, r, flat, None)); y = r.y1
                if not flat: p.insert_text((50, y + 16), LONG + f' {no} {k} {d}', fontsize=10)
            y += 30
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        elif what in ('alone', 'small'):
            if what == 'small': w, h = rng.choice([(5, 4), (12, 3), (4, 14)])
            pic = Pic(rng, rng.choice(ks)); r = fitz.Rect(xx, y, xx + w, y + h)
            pic.put(p, r); want.append((pic, r, False, None)); y += h + rng.choice([8, 20])
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        elif what == 'form':    # a page shown in a page
            src = fitz.open(); q = src.new_page(width=200, height=100)
            pic = Pic(rng, rng.choice([v for v in ks if v != 'mask'])); f = fitz.Rect(10, 10, 10 + min(w, 150), 10 + h)
            pic.put(q, f)
            for d in range(rng.choice([1, 1, 2])):
                if y + 110 > H - 60: break
                p.show_pdf_page(fitz.Rect(xx - 40, y, xx + 160, y + 100), src, 0)
                want.append((pic, fitz.Rect(xx - 30, y + 10, xx - 30 + f.width, y + 10 + f.height), False, None)); y += 110
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        elif what == 'row':     # on the same row as text
            pic = Pic(rng, rng.choice(ks)); r = fitz.Rect(72, y, 72 + w, y + h)
            pic.put(p, r); p.insert_text((72 + w + 8, y + h - 2), sentence(rng, 2), fontsize=10)
            want.append((pic, r, None, None)); y += h + 20
            p.insert_text((50, y), LONG + f' {no} {k}', fontsize=10); y += 14
        elif what in ('over', 'behind'):       # text on the picture
            pic = Pic(rng, rng.choice([v for v in ks if v != 'mask'] if what == 'over' else ks)); r = fitz.Rect(xx, y, xx + w + 40, y + h + 20)
            if what == 'behind': p.insert_text((r.x0 + 10, y + h / 2 + 10), 'some words', fontsize=11)
            pic.put(p, r)
            if what == 'over': p.insert_text((r.x0 + 10, y + h / 2 + 10), 'some words', fontsize=11)
            want.append((pic, r, True, None)); y = r.y1 + 15
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        elif what in ('pair', 'stack'):        # two overlapping pictures, or one exactly on the other
            for d in ((0, 20) if what == 'pair' else (0, 0, 0)[:rng.choice([2, 2, 3])]):
                pic = Pic(rng, rng.choice([v for v in ks if v != 'mask'])); r = fitz.Rect(xx + d, y + d, xx + d + 60, y + d + 50)
                pic.put(p, r); want.append((pic, r, True, None))
            y += 85
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        elif what == 'twice':       # the same picture in several places
            pic = Pic(rng, rng.choice(['rgb', 'jpeg', 'gray'])); x0 = 0
            for d in range(rng.choice([2, 2, 3])):
                r = fitz.Rect(xx, y, xx + w + 20 * d, y + h)
                x0 = pic.put(p, r, x0); want.append((pic, r, False, None)); y += h + 15
                if rng.random() < .5: p.insert_text((50, y + 10), LONG + f' {no} {k} {d}', fontsize=10); y += 25
                if y + h > H - 110: break
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        elif what == 'cell':
            g = Grid(rng, 60, round(y), merge=0, sizes=(1, 2, 2, 3), cw=(90, 140), rh=(50, 90))
            if g.ys[-1] > H - 60 or g.open: k += 1; y += 5; continue
            g.fill, g.text = {}, {}
            for c in sorted(g.span):
                a, b, a1, b1 = g.box(c)
                g.text[c] = [f't{no}x{k}c{c[0]}{c[1]}']
            g.draw(p, rng)
            for c in sorted(g.span):
                if rng.random() < .6:
                    a, b, a1, b1 = g.box(c)
                    pw, ph = rng.choice([(30, 20), (50, 25), (25, 22)])
                    r = fitz.Rect(a + 8, b1 - ph - 4, a + 8 + pw, b1 - 4)
                    pic = Pic(rng, rng.choice([v for v in ks if v != 'mask'])); pic.put(p, r); want.append((pic, r, None, g.text[c][0]))
            y = g.ys[-1] + 20
            p.insert_text((50, y + 10), LONG + f' {no} {k}', fontsize=10); y += 20
        k += 1
        if rng.random() < .15: break
    p.insert_text((50, H - 40), LONG + f' end {no}', fontsize=10)
    return want


def pages(x):
    rng = x.rng('pages')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(60 * x.n):
            if x.left() < 0: break
            doc, wants = fitz.open(), []
            for n in range(rng.choice([1, 1, 2])):
                p = doc.new_page(width=595, height=rng.choice([842, 792]))
                wants.append(draw_page(p, rng, n))
            doc.save(f('a.pdf')); doc.close()
            convert(f('a.pdf'), f('a.docx'))
            x.case('pages', (k,), dict(pages=len(wants)))
            got = found(f('a.docx'))
            if not x.check(len(got) == len(wants), 'pages-sections', 'every page is a section', no=k): continue
            for n, (w, g) in enumerate(zip(wants, got)): compare(x, 'pages', w, g, dict(no=k, page=n))


def kinds(x):
    """each kind of picture on its own, at every sort of place"""
    rng = x.rng('kinds')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(24 * x.n):
            if x.left() < 0: break
            kind = KINDS[k % len(KINDS)]
            doc = fitz.open(); p = doc.new_page(width=595, height=842)
            p.insert_text((50, 60), LONG, fontsize=10)
            a, b = rng.uniform(40, 300), rng.uniform(80, 400)
            r = fitz.Rect(a, b, a + rng.uniform(20, 240), b + rng.uniform(20, 300))
            pic = Pic(rng, kind); pic.put(p, r)
            p.insert_text((50, 780), LONG, fontsize=10)
            doc.save(f('k.pdf')); doc.close()
            convert(f('k.pdf'), f('k.docx'))
            x.case('kinds', (k,), dict(kind=kind, at=[round(v) for v in r]))
            compare(x, 'kinds', [(pic, r, False, None)], [g for s in found(f('k.docx')) for g in s], dict(no=k))


def edges(x):
    """pictures that reach over an edge or a corner of the page"""
    rng = x.rng('edges')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(36 * x.n):
            if x.left() < 0: break
            kind = KINDS[k % len(KINDS)]
            doc = fitz.open(); p = doc.new_page(width=595, height=842)
            p.insert_text((50, 400), LONG, fontsize=10)
            w, h = rng.uniform(60, 200), rng.uniform(60, 200)
            sx, sy = rng.choice([(-1, 0), (1, 0), (0, -1), (0, 1), (-1, -1), (1, 1), (-1, 1), (1, -1)])
            out = rng.uniform(5, 50)
            a = -out if sx < 0 else 595 - w + out if sx else rng.uniform(80, 300)
            b = -out if sy < 0 else 842 - h + out if sy else rng.choice([rng.uniform(30, 180), rng.uniform(450, 600)])
            r = fitz.Rect(a, b, a + w, b + h)
            pic = Pic(rng, kind); pic.put(p, r)
            over = kind != 'mask' and k % 2
            if over: p.insert_text((max(a, 0) + 8, max(b, 0) + 25), 'some words', fontsize=11)
            if b > 100: p.insert_text((50, 50), LONG, fontsize=10)
            if b + h < 700: p.insert_text((50, 780), LONG, fontsize=10)
            doc.save(f('k.pdf')); doc.close()
            convert(f('k.pdf'), f('k.docx'))
            x.case('edges', (k,), dict(kind=kind, at=[round(v) for v in r]))
            pic.full = r
            compare(x, 'edges', [(pic, r & fitz.Rect(0, 0, 595, 842) if kind == 'mask' else r, bool(over), None)], [g for s in found(f('k.docx')) for g in s], dict(no=k))


def turned(x):
    """the same on pages that are displayed turned"""
    rng = x.rng('turned')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(20 * x.n):
            if x.left() < 0: break
            doc = fitz.open(); p = doc.new_page(width=595, height=842)
            w = draw_page(p, rng, 0, mask=rng.random() < .3)
            deg = rng.choice([90, 180, 270])
            turn(doc, p, deg)
            doc.save(f('t.pdf')); doc.close()
            shift_some(f('t.pdf'), rng, .4)
            convert(f('t.pdf'), f('t.docx'))
            x.case('turned', (k,), dict(rotation=deg, pictures=len(w)))
            compare(x, 'turned', w, [g for s in found(f('t.docx')) for g in s], dict(no=k, rotation=deg))


def repeated(x):
    """two pictures of the same pixels with different masks, each at several places"""
    rng = random.Random(7)
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        doc = fitz.open(); p = doc.new_page(width=595, height=842)
        a = Pic(rng, 'soft')
        while (a.mw, a.mh) != (40, 32): a = Pic(rng, 'soft')
        a.al[:] = 255; a.al[:a.mh // 2] = 100; b = a.twin(rng)
        p.insert_text((50, 50), LONG, fontsize=10)
        refs = {}
        for k, q in enumerate((a, b, a, b)):
            r = fitz.Rect(72, 80 + 90 * k, 132, 130 + 90 * k)
            refs[q] = q.put(p, r) if q not in refs else q.draw(p, r, refs[q])
            p.insert_text((50, 150 + 90 * k), LONG + f' {k}', fontsize=10)
        doc.save(f('r.pdf')); doc.close()
        convert(f('r.pdf'), f('r.docx'))
        x.case('repeated', (0,), {})
        got = [g for s in found(f('r.docx')) for g in s]
        x.check(len(got) == 4, 'repeated-once', 'each picture once for every time it is drawn', got=len(got))
        x.check([same_shown(q, g['shows']) for q, g in zip((a, b, a, b), got)] == [True] * 4, 'twins-repeated', 'each place shows the picture with its own mask')
