"""C10: pictures of the page, as read and as written"""
from pyvc.spec import *
from .layout import turns, near, shown
from .restore import upright

EX = 'image.ImagesExtractor:ImagesExtractor'


# ------------------------------------------------ written
class Stream:
    """stand-in of BytesIO: keeps the bytes it is made from"""
    _pyvc_stub = True
    def __init__(self, data): self.data = data


def emu(v, pt): return v is not None and And(v / 12700 <= pt, pt < v / 12700 + 0.001)


@contract('C10', 'common.docx:add_image', n=0)
def in_line(c):
    E = c.mod('common.docx').UnrecognizedImageError
    log, unknown = [], c.choice('unknown format', [False, True])
    class F:
        _pyvc_stub = True
    class Run:
        _pyvc_stub = True
        def add_picture(self, data, width=None, height=None):
            log.append((data, width, height))
            if unknown: raise E()
    class P:
        _pyvc_stub = True
        paragraph_format = F()
        runs = 0
        def add_run(self, *a): self.runs += 1; return Run()
    p, w, h = P(), c.real('width', 0, 5000), c.real('height', 0, 5000)
    if unknown:
        c.mod('common.docx').add_image(p, 'data', w, h)
        return c.ensures('a picture of unknown format does no harm', p.runs <= 1)
    c.call(c.mod('common.docx').add_image, p, 'data', w, h)
    c.ensures('one picture, in a run of its own', p.runs == 1 and len(log) == 1)
    c.ensures('the picture passed', log[0][0] == 'data')
    c.ensures('width and height of the page', And(emu(log[0][1], w), emu(log[0][2], h)))
    c.ensures('the line is as high as the picture', getattr(P.paragraph_format, 'line_spacing', None) == 1)


class Anchor:
    pass


@contract('C10', 'common.docx:add_float_image', n=0, stubs={'common.docx:_CT_Anchor.new_pic_anchor': lambda ctx: (lambda cls, *a: ctx.log.append(('anchor',) + a) or 'the anchor')},
          assumes=['python-docx scaled_dimensions gives back width and height if both are given', 'new_pic_anchor writes the sizes and the position it is given (bounded: cross-checks read the file)'])
def floating(c):
    c.log = log = []
    class Image:
        _pyvc_stub = True
        filename = 'name'
        def scaled_dimensions(self, cx=None, cy=None): return cx, cy
    class Part:
        _pyvc_stub = True
        next_id = 7
        def get_or_add_image(self, data): log.append(('image', data)); return 'rId9', Image()
    class R:
        _pyvc_stub = True
        def add_drawing(self, d): log.append(('drawing', d))
    class Run:
        _pyvc_stub = True
        part, _r = Part(), R()
    class P:
        _pyvc_stub = True
        runs = 0
        def add_run(self, *a): self.runs += 1; return Run()
    p = P()
    w, h, x, y = c.real('width', 0, 5000), c.real('height', 0, 5000), c.real('x', 0, 5000), c.real('y', 0, 5000)
    c.call(c.mod('common.docx').add_float_image, p, 'data', w, pos_x=x, pos_y=y, height=h)
    c.ensures('one picture', [v[0] for v in log] == ['image', 'anchor', 'drawing'] and log[0][1] == 'data' and log[2][1] == 'the anchor')
    k, sid, rid, name, cx, cy, px, py = log[1]
    c.ensures('it refers to its own data', rid == 'rId9' and sid == 7)
    c.ensures('width and height of the page', And(emu(cx, w), emu(cy, h)))
    c.ensures('position on the page', And(emu(px, x), emu(py, y)))


def writer(name):
    """contract of add_image / add_float_image: records what it is asked for"""
    def factory(ctx):
        def stub(p, data, width, pos_x=None, pos_y=None, height=None): ctx.log.append((name, p, data.data, width, height, pos_x, pos_y))
        return stub
    return factory


def picture(c, cls, box, data='bytes'):
    return c.raw(cls, bbox=box, image=data, width=c.int('pixels x', 1), height=c.int('pixels y', 1), ext='png', _parent=None)


@contract('C10', 'image.ImageBlock:ImageBlock.make_docx', n=0, stubs={
    'common.docx:add_image': writer('in line'), 'image.ImageBlock:add_float_image': writer('floating'), 'image.Image:BytesIO': lambda ctx: Stream, 'image.ImageBlock:BytesIO': lambda ctx: Stream})
def written(c):
    """a picture is written once, with its data, size and place on the page"""
    B, S = c.mod('image.ImageBlock').ImageBlock, c.mod('image.ImageSpan').ImageSpan
    c.log, b = [], c.rect('box', nonempty=True)
    kind = c.choice('kind', ['span', 'floating'])
    e = picture(c, S if kind == 'span' else B, b)
    if kind == 'floating': c.call(e.set_float_image_block)
    p = object()
    c.call(e.make_docx, p)
    c.ensures('written once, into the paragraph given', len(c.log) == 1 and c.log[0][1] is p)
    name, p, data, w, h, x, y = c.log[0]
    c.ensures('the data of the picture', data == 'bytes')
    c.ensures('size of its box', And(eq(w, b[2] - b[0]), eq(h, b[3] - b[1])))
    c.ensures('floating pictures only have a position', name == ('floating' if kind == 'floating' else 'in line'))
    if kind == 'floating': c.ensures('position of its box', And(eq(x, b[0]), eq(y, b[1])))


# ------------------------------------------------ kept between reading and writing
@contract('C10', 'image.ImageBlock:ImageBlock.to_text_block', n=0)
def into_text(c):
    """a picture put into a text block, and taken out again, is the same"""
    upright(c)
    B, T, S = c.mod('image.ImageBlock').ImageBlock, c.mod('text.TextBlock').TextBlock, c.mod('image.ImageSpan').ImageSpan
    b = [c.int(f'b{k}', 0, 9000) / 10 for k in range(4)]
    c.requires(b[0] < b[2], b[1] < b[3])
    raw = dict(type=1, bbox=tuple(b), width=c.int('pixels x', 1), height=c.int('pixels y', 1), ext=c.choice('ext', ['png', 'jpeg']), image=b'data')
    e = c.call(B, raw)
    c.ensures('box as read', And([eq(x, y) for x, y in zip(e.bbox, b)]))
    t = c.call(e.to_text_block)
    c.ensures('it is a text block of one line with one span', len(list(t.lines)) == 1 and len(list(list(t.lines)[0].spans)) == 1)
    s = list(list(t.lines)[0].spans)[0]
    c.ensures('marked as a picture', bool(t.is_inline_image_block()))
    def kept(o): return And(o.image == b'data', o.ext == raw['ext'], eq(o.width, raw['width']), eq(o.height, raw['height']), *[eq(x, y) for x, y in zip(o.bbox, b)])
    c.ensures('the span has its data and box', isinstance(s, S) and kept(s))
    c.ensures('line and block have its box', And([eq(x, y) for o in (t, list(t.lines)[0]) for x, y in zip(o.bbox, b)]))
    f = c.call(c.call(B).from_text_block, t)
    c.ensures('the same picture is taken out again', kept(f))


@contract('C10', 'image.ImageBlock:ImageBlock.from_text_block', n=0)
def no_picture(c):
    """only a picture is taken out of a text block"""
    B, T, L, TS = c.mod('image.ImageBlock').ImageBlock, c.mod('text.TextBlock').TextBlock, c.mod('text.Line').Line, c.mod('text.TextSpan').TextSpan
    upright(c)
    class Spans(list): pass
    class Of:
        _pyvc_stub = True
        def __init__(self, **k): self.__dict__.update(k)
    what = c.choice('block', ['no lines', 'no spans', 'text'])
    t = Of(lines=[] if what == 'no lines' else [Of(spans=[] if what == 'no spans' else [c.raw(TS, bbox=c.rect('b'))])])
    e = c.call(B)
    old = dict(vars(e))
    c.ensures('itself', c.call(e.from_text_block, t) is e)
    c.ensures('nothing is taken from a block without picture', set(vars(e)) == set(old) and all(vars(e)[k] is old[k] for k in old))


@contract('C10', 'image.ImageSpan:ImageSpan.intersects', n=0, stubs={'common.Element:Element.copy': lambda ctx: (lambda self: ('copy of', self))})
def in_cell(c):
    """a picture belongs to the box its centre is in, as a whole"""
    S = c.mod('image.ImageSpan').ImageSpan
    upright(c)
    b, r = c.rect('box', nonempty=True), c.rect('cell', nonempty=True)
    e = picture(c, S, b)
    got = c.call(e.intersects, r)
    x, y = (b[0] + b[2]) / 2, (b[1] + b[3]) / 2
    inside = And(r[0] <= x, x < r[2], r[1] <= y, y < r[3])
    if isinstance(got, tuple): c.ensures('the whole picture if its centre is inside', And(got[1] is e, inside))
    else: c.ensures('otherwise an empty one', And(Not(inside), got.image == b'', eq(got.bbox[0], got.bbox[2])))


# ------------------------------------------------ read
class Pix:
    """stand-in of a pixmap; how it is made is recorded in ``of``"""
    _pyvc_stub = True
    def __init__(self, of, colorspace, width, height, alpha=None, converted=False):
        self.of, self.colorspace, self.alpha, self.width, self.height, self.converted = of, colorspace, alpha, width, height, converted
    def getPNGData(self): return ('png of', self)
    samples = property(lambda self: Samples(self))
    def setAlpha(self, a): self.alpha = a


class Samples(bytes):
    """all samples of a pixmap"""
    def __new__(cls, p): s = bytes.__new__(cls, b'samples'); s.p = p; return s


@contract('C10', EX + '._to_raw_dict', n=0)
def raw_dict(c):
    w, h, b = c.int('pixels x', 1), c.int('pixels y', 1), c.rect('box')
    x = Pix('x', None, w, h)
    r = c.call(c.mod('image.ImagesExtractor').ImagesExtractor._to_raw_dict, x, b)
    c.ensures('it is a picture', r['type'] == 1)
    c.ensures('all its pixels', r['image'] == ('png of', x) and r['ext'] == 'png' and And(eq(r['width'], w), eq(r['height'], h)))
    c.ensures('box as given', And([eq(u, v) for u, v in zip(r['bbox'], b)]))


class Space:
    _pyvc_stub = True
    def __init__(self, name): self.name = name


GRAY, RGB, CMYK = Space('DeviceGray'), Space('DeviceRGB'), Space('DeviceCMYK')


def pixmaps(ctx):
    """stand-in of fitz: Pixmap(doc, xref), Pixmap(pixmap, alpha), Pixmap(colorspace, pixmap), Pixmap(pixmap, width, height, None)"""
    class fitz:
        _pyvc_stub = True
        csGRAY, csRGB = GRAY, RGB
        @staticmethod
        def Pixmap(a, b, *size):
            if size: return Pix(a.of, a.colorspace, b, size[0], a.alpha, a.converted)
            if a is ctx.doc: return Pix(('xref', b), *ctx.stored[b])
            if isinstance(a, Pix): return Pix(a.of, a.colorspace, a.width, a.height, 'opaque' if b else None, a.converted)
            return Pix(b.of, a, b.width, b.height, b.alpha, True)
    return fitz


class Bytes:
    """stand-in of bytearray"""
    _pyvc_stub = True
    def __init__(self, s): self.p = s.p


@contract('C10', EX + '._recover_pixmap', n=0, stubs={'image.ImagesExtractor:fitz': pixmaps, 'image.ImagesExtractor:bytearray': lambda ctx: Bytes},
          assumes=['PyMuPDF pixmaps replaced by a stand-in: scaling, changing colours and setting alpha do what they say, and alpha values must be as many as pixels'])
def recover(c):
    """colours of the picture in RGB or grey, with its soft mask as it is"""
    c.doc = object()
    cs, mask = c.choice('colours', [GRAY, RGB, CMYK, Space('ICCBased'), None]), c.choice('mask', [0, 12])
    w, h, mw, mh = c.int('w', 1), c.int('h', 1), c.int('mask w', 1), c.int('mask h', 1)
    c.stored = {5: (cs, w, h), 12: (GRAY, mw, mh)}
    way = c.choice('way of its colours', ['DeviceGray', 'DeviceRGB', 'ICCBased', 'Separation', 'DeviceN', 'Lab', 'Indexed', 'CalRGB', 'CalGray', ''])
    plain = way in ('DeviceGray', 'DeviceRGB', 'ICCBased')        # for others PyMuPDF tells the count of components only
    r = c.call(c.mod('image.ImagesExtractor').ImagesExtractor._recover_pixmap, c.doc, [5, mask, 1, 1, 8, way, '', 'Im0', '', 0])
    c.ensures('pixels of the picture', r.of == ('xref', 5))
    c.ensures('no pixel is lost', And(r.width >= w, r.height >= h))
    if plain or cs not in (GRAY, RGB): c.ensures('grey stays grey, other colours become RGB', r.colorspace is (cs if cs in (GRAY, RGB, None) else RGB))
    else: c.ensures('colours in another way become real RGB', r.colorspace is RGB and r.converted)
    if not mask: return c.ensures('opaque without mask', r.alpha is None)
    m = r.alpha.p if isinstance(r.alpha, Bytes) else None
    c.ensures('transparent as its soft mask is', m is not None and m.of == ('xref', 12))
    c.ensures('a value of the mask for every pixel', And(eq(m.width, r.width), eq(m.height, r.height)))
    c.ensures('no value of the mask is lost', And(m.width >= mw, m.height >= mh))


# what PyMuPDF knows of the pictures (by xref): a box by name, places by content, colours
NAMED, PLACED, GREYLESS = ufun('a box is found by name', 'int', 'bool'), ufun('a place is found by content', 'int', 'bool'), ufun('without colours', 'int', 'bool')
BOX, PLACE = [ufun(f'box by name {k}', 'int', 'real') for k in range(4)], [ufun(f'place by content {k}', 'int', 'real') for k in range(4)]
COUNT, USABLE, UNSURE = ufun('pictures read before', 'int', 'int'), ufun('is to be read', 'int', 'bool'), ufun('name does not tell its place', 'int', 'bool')
SHOWN = [ufun(f'box as displayed {k}', 'int', 'real') for k in range(4)]


class Picture:
    """stand-in of a pixmap, of the picture with this xref or of an area of the page"""
    _pyvc_stub = True
    def __init__(self, xref, colorspace, area=None): self.xref, self.colorspace, self.area = xref, colorspace, area


def pixmap_of(ctx):
    def stub(doc, item):
        ctx.ensures('read from its document', doc is ctx.doc)
        return Picture(item[0], Space('RGB') if not GREYLESS(item[0]) else None)
    return stub


def clipped(ctx):
    def stub(cls, page, bbox=None, zoom=3.0):
        ctx.ensures('drawn at the resolution asked for', eq(zoom, ctx.zoom))
        return Picture(-1, Space('RGB'), bbox)
    return stub


def to_dict(ctx):
    def stub(cls, pix, bbox): return {'src': pix.xref, 'bbox': bbox, 'area': pix.area if pix.area is not None else ctx.mkrect(0, 0, 0, 0)}
    return stub


def extracted(L):
    g, k = ghost('extract'), L.k_
    return [('number read', And(eq(Len(L.images), COUNT(k)), COUNT(k) >= 0)), ('places of those read', forall(0, k, lambda j: Implies(g.usable(j), And(COUNT(j) >= 0, COUNT(j) < COUNT(k)))))] + [
        (l, forall(0, k, lambda j: Implies(g.usable(j), f(at(L.images, COUNT(j)), j)))) for l, f in g.rows]


class Facts:
    _pyvc_stub = True


SEEN = ufun('a picture is displayed there', 'real', 'real', 'real', 'real', 'bool')


def seen(ctx):
    def stub(bbox, areas):
        ctx.ensures('asked with what this page displays', areas is ghost('areas')[0])
        return SEEN(bbox.x0, bbox.y0, bbox.x1, bbox.y1)
    return stub


def areas_of(ctx):
    def stub(page): return ghost('areas', [object()])[0]
    return stub


@contract('C10', EX + '._is_displayed', n=40)
def displayed(c):
    """some picture is displayed in this box, to a point"""
    b, areas = c.rect('box'), c.list('areas', 'rect')
    r = c.call(c.mod('image.ImagesExtractor').ImagesExtractor._is_displayed, b, areas)
    ks = ('x0', 'y0', 'x1', 'y1')
    c.ensures('exactly if one is', Iff(r, exists(0, Len(areas), lambda j: And(*[Abs(getattr(at(areas, j), k) - getattr(b, k)) < 1 for k in ks]))))
    c.ensures('not known: yes', c.call(c.mod('image.ImagesExtractor').ImagesExtractor._is_displayed, b, None) is True)


@contract('C10', EX + '._displayed_areas', n=0, within='up to 2 entries of any kind and place',
          assumes=['PyMuPDF: get_bboxlog lists what is displayed, in the page as stored, pictures as fill-image or fill-imgmask'])
def shown_areas(c):
    """the pictures a page displays, and nothing else, where it displays them"""
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, dm = turns(c, w, h)
    log = [(c.choice(f'kind {k}', ['fill-image', 'fill-imgmask', 'fill-path', 'stroke-path', 'fill-text', 'ignore-text', 'fill-shade']), c.rect(f'place {k}')) for k in range(c.choice('entries', [0, 1, 2]))]
    class P:
        _pyvc_stub = True
        rotationMatrix = m
        def get_bboxlog(self): return [(k, (q.x0, q.y0, q.x1, q.y1)) for k, q in log]
    r = list(c.call(c.mod('image.ImagesExtractor').ImagesExtractor._displayed_areas, P()))
    want = [q for k, q in log if k in ('fill-image', 'fill-imgmask')]
    c.ensures('as many as pictures', len(r) == len(want))
    for a, q in zip(r, want): c.ensures('where they are displayed', near(a, shown(q, deg, w, h), 0))


@contract('C10', EX + '.extract_images', n=0, stubs={EX + '._recover_pixmap': pixmap_of, EX + '._clip_page': clipped, EX + '._to_raw_dict': to_dict, EX + '._is_displayed': seen, EX + '._displayed_areas': areas_of}, timeout=30,
          loops={0: Loop(inv=extracted, types={'images': ('rec', {'src': 'int', 'bbox': 'rect', 'area': 'rect'})})},
          assumes=['PyMuPDF functions replaced by stand-ins: by name they find the box of a picture on the page as displayed, or raise; by content the places of a picture on the page as stored, if any'])
def extract(c):
    """every picture of the page that has a box on it and is displayed is read, once, with its pixels and its box, on pages with any rotation"""
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, dm = turns(c, w, h)
    items = c.list('items', ('tuple', 'int', 'int', 'int', 'int', 'int', 'str', 'str', 'str', 'str', 'int'))
    n = Len(items)
    xref, name, form = (lambda j: at(items, j)[0]), (lambda j: at(items, j)[7]), (lambda j: at(items, j)[9])
    c.requires(forall(0, n, lambda j: And(xref(j) >= 1, form(j) >= 0)))
    dw, dh = (w, h) if deg in (0, 180) else (h, w)
    def rect(F, x): return c.mkrect(*[f(x) for f in F])
    class P:
        _pyvc_stub = True
        rect = c.mkrect(0, 0, dw, dh)
        rotationMatrix, derotationMatrix, rotation = m, dm, deg
        parent = c.doc = object()
        def getImageList(self, full=False):
            c.ensures('pictures in forms are asked for', full is True)
            return items
        def getImageBbox(self, item):
            c.ensures('a box is asked by name only', eq(item[9], 0))
            if not NAMED(item[0]): raise ValueError('bad image name')
            return c.mkrect(*[f(item[0]) for f in BOX])
        def get_image_rects(self, x): return c.vlist([c.mkrect(*[f(x) for f in PLACE])] if PLACED(x) else [])
    def define(F, f):
        """F(j) is f(j), for every picture"""
        from pyvc.core import Num
        c.requires(forall(0, n, lambda j: eq(F(j), f(j)) if F not in (USABLE, UNSURE) else Iff(F(j), f(j)), pats=lambda j: [F(Num(j)).t]))
    define(UNSURE, lambda j: Or(form(j) != 0, exists(0, n, lambda i: And(i != j, eq(name(i), name(j))))))
    def by_content(j): return And(UNSURE(j), PLACED(xref(j)))
    for k in range(4): define(SHOWN[k], lambda j, k=k: Ite(by_content(j), shown([f(xref(j)) for f in PLACE], deg, w, h)[k], BOX[k](xref(j))))
    def box(j): return [f(j) for f in SHOWN]
    def visible(j): return [Max(SHOWN[0](j), 0), Max(SHOWN[1](j), 0), Min(SHOWN[2](j), dw), Min(SHOWN[3](j), dh)]
    def due(j): return [Ite(GREYLESS(xref(j)), a, b) for a, b in zip(visible(j), box(j))]
    define(USABLE, lambda j: And(Or(by_content(j), NAMED(xref(j))), Or(eq(at(items, j)[5], ''), SEEN(*box(j))), Max(SHOWN[0](j), 0) < Min(SHOWN[2](j), dw), Max(SHOWN[1](j), 0) < Min(SHOWN[3](j), dh)))
    c.requires(forall(0, n, lambda j: And(*[F[k](xref(j)) <= F[k + 2](xref(j)) for F in (BOX, PLACE) for k in (0, 1)])))
    c.requires(eq(COUNT(0), 0), forall(0, n, lambda j: eq(COUNT(j + 1), COUNT(j) + Ite(USABLE(j), 1, 0))))
    g = ghost('extract', Facts())
    g.usable = USABLE
    g.rows = [('the picture itself, or what the page shows if it has no colours', lambda r, j: eq(r['src'], Ite(GREYLESS(xref(j)), -1, xref(j)))),
              ('its box, relative to the page as stored; the part on the page if it is drawn from there', lambda r, j: near(shown(r['bbox'], deg, w, h), due(j), 0)),
              ('what the page shows there', lambda r, j: Implies(GREYLESS(xref(j)), near(r['area'], visible(j), 0)))]
    c.zoom = c.real('zoom', .1, 10)
    out = c.call(c.mod('image.ImagesExtractor').ImagesExtractor.extract_images, P(), c.zoom)
    c.ensures('as many pictures as there are on the page', eq(Len(out), COUNT(n)))
    for l, f in g.rows: c.ensures(l, forall(0, n, lambda j: Implies(USABLE(j), f(at(out, COUNT(j)), j))))


@contract('C10', 'page.RawPage:RawPage._preprocess_images', n=0, stubs={EX + '.extract_images': lambda ctx: (lambda cls, page, ratio=3.0: ctx.read(page, ratio))},
          within='pages of up to 3 places of pictures of 2 contents, and up to 2 pictures read, at 2 different boxes')
def places(c):
    """a picture read is put at every place it has on the page"""
    P, Q = (10.2, 20., 30., 40.), (50., 60., 80., 90.)
    log = []
    blocks = [{'type': 0, 'bbox': P, 'mark': 'text'}]
    for k in range(c.choice('places', [0, 1, 2, 3])):
        blocks.append({'type': 1, 'bbox': c.choice(f'box {k}', [P, Q]), 'image': c.choice(f'content {k}', [b'a', b'b']), 'width': 4, 'height': 2})
    read = [{'type': 1, 'bbox': c.choice(f'read box {k}', [P, Q]), 'image': b'read%d' % k, 'width': 4, 'height': 2} for k in range(c.choice('read', [0, 1, 2]))]
    def of(page, ratio): log.append((page, ratio)); return list(read)
    c.read = of
    old = [dict(b) for b in blocks]
    raw = {'blocks': blocks}
    p = c.raw(c.mod('page.Page').Page, fitz_page='the page', settings={'clip_image_res_ratio': 4.5})
    c.call(p._preprocess_images, raw)
    n, new = len(old), raw['blocks']
    c.ensures('read once, from this page, at the resolution set', log == [('the page', 4.5)])
    c.ensures('nothing else is changed', dict(new[0]) == old[0] and all(new[k]['bbox'] == old[k]['bbox'] for k in range(n)))
    at_box = lambda b: {o['image'] for o in old[1:] if o['bbox'] == b}
    c.ensures('a picture without place on the page is added, once', [b['image'] for b in new[n:]] == [r['image'] for r in read if not at_box(r['bbox'])])
    for b, o in zip(new[1:n], old[1:]):
        c.ensures('all places of one content are shown, or none', all(x['type'] == b['type'] for x, y in zip(new[1:n], old[1:]) if y['image'] == o['image']))
        c.ensures('places of one content at which no picture is read show the same', all(x['image'] == b['image'] for x, y in zip(new[1:n], old[1:]) if b['type'] == 1 and y['image'] == o['image']
            and not any(r['bbox'] in (y['bbox'], o['bbox']) for r in read)))
        boxes = [y['bbox'] for y in old[1:] if y['image'] == o['image']]
        if b['type'] == 1: c.ensures('a picture read from this place, or another of the same content', any(b['image'] == r['image'] and r['bbox'] in boxes for r in read))
        else: c.ensures('a place is not shown only if the pictures read there are shown elsewhere', all(any(x['type'] == 1 and x['image'] == r['image'] for x in new[1:n]) for r in read if r['bbox'] in boxes))
    for r in read:
        if sum(q['bbox'] == r['bbox'] for q in read) <= sum(o['bbox'] == r['bbox'] for o in old[1:]):
            c.ensures('a picture read is shown where it is', any(b['type'] == 1 and b['image'] == r['image'] and b['bbox'] == r['bbox'] for b in new[1:n]))


# ------------------------------------------------ floating pictures
@contract('C10', 'page.Blocks:Blocks.identify_floating_images', n=0, stubs={
    'common.Collection:BaseCollection.group_by_connectivity': lambda ctx: (lambda self, dx=0.0, dy=0.0: ctx.connected(self, dx, dy)),
    'image.ImageBlock:ImageBlock.from_text_block': lambda ctx: (lambda self, b: ctx.taken(self, b))},
    within='up to 4 lines, of texts and pictures, in any groups')
def float_ids(c):
    """pictures that overlap other content float, and are taken from the text; all others stay"""
    B, T, L, BT = c.mod('page.Blocks').Blocks, c.mod('text.TextBlock').TextBlock, c.mod('text.Line').Line, c.mod('common.share').BlockType
    upright(c)
    n = c.choice('blocks', [0, 1, 2, 3, 4])
    gap = c.real('gap', 0, 10)
    blocks, group = [], []
    for k in range(n):
        pic = c.choice(f'picture {k}', [False, True])
        t = c.call(T)
        if pic: t.set_inline_image_block()
        l = c.call(L)
        l.update_bbox((k + 1., 1., k + 2., 2.))
        t.add(l)
        blocks.append((t, l, pic, tuple(t.bbox)))
        group.append(c.choice(f'group {k}', list(range(max(group, default=-1) + 2))))
    def connected(lines, dx, dy):
        c.ensures('all lines are grouped', len(list(lines)) == n and all(x is y[1] for x, y in zip(lines, blocks)))
        c.ensures('by an overlap of more than the gap', And(eq(dx, -gap), eq(dy, -gap)))
        return [[blocks[k][1] for k in range(n) if group[k] == g] for g in sorted(set(group))]
    took = []
    def taken(self, b): took.append((self, b)); return self
    c.connected, c.taken = connected, taken
    bs = c.raw(B, _instances=[b[0] for b in blocks], _parent=None, floating_image_blocks=[])
    c.call(bs.identify_floating_images, gap)
    want = [k for k in range(n) if blocks[k][2] and group.count(group[k]) > 1]
    got = list(bs.floating_image_blocks)
    c.ensures('every picture that overlaps others floats, once', len(got) == len(want) and len(took) == len(want) and {id(b) for f, b in took} == {id(blocks[k][0]) for k in want})
    c.ensures('and nothing else', all(any(g is f for f, b in took) for g in got) and all(bool(g.is_float_image_block()) for g in got))
    for k, (t, l, pic, old) in enumerate(blocks):
        b = tuple(t.bbox)
        if k in want: c.ensures('its place in the text is given up', eq(b[0], b[2]) if True else 0)
        else: c.ensures('other content stays', And([eq(x, y) for x, y in zip(b, old)]))
