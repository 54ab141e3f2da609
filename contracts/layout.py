"""C13: page size and margins; C22: pages with /Rotate"""
from pyvc.spec import *

INCH = 72


def clamp(x): return Max(0, Min(x, INCH))


def box_of(c, name, present):
    """a collection of blocks/shapes: falsy without elements; its box"""
    class Coll:
        _pyvc_stub = True
        bbox = c.rect(name, nonempty=True) if present else c.mkrect(0, 0, 0, 0)
        def __bool__(self): return present
        def __len__(self): return 1 if present else 0
    return Coll()


class Layout:
    _pyvc_stub = True


def page(c, **kw):
    P = c.mod('page.Page').Page
    return c.raw(P, width=c.real('width', 1, 2000), height=c.real('height', 1, 2000), **kw)


@contract('C13', 'page.Page:Page._cal_margin')
def cal_margin(c):
    ft, fb = c.real('factor top', 0, 1), c.real('factor bottom', 0, 1)
    hb, hs = c.choice('blocks', [True, False]), c.choice('shapes', [True, False])
    l = Layout()
    l.blocks, l.shapes = box_of(c, 'b', hb), box_of(c, 's', hs)
    p = page(c, settings={'page_margin_factor_top': ft, 'page_margin_factor_bottom': fb}, layout=l)
    r = c.call(p._cal_margin)
    left, right, top, bottom = r
    if not (hb or hs):
        c.ensures('an empty page has margins of one inch', And(eq(left, INCH), eq(right, INCH), eq(top, INCH), eq(bottom, INCH)))
        return
    b = l.blocks.bbox if hb else l.shapes.bbox
    s = l.shapes.bbox if hs else l.blocks.bbox
    u = (Min(b[0], s[0]), Min(b[1], s[1]), Max(b[2], s[2]), Max(b[3], s[3]))
    for m in r: c.ensures('between nothing and one inch', And(ge(m, 0), le(m, INCH)))
    want = (clamp(u[0]), clamp(p.width - u[2] - 1), clamp(Max(u[1], 0) * ft), clamp(Max(p.height - u[3], 0) * fb))
    for n, m, w in zip(('left', 'right', 'top', 'bottom'), r, want): c.ensures(f'{n} margin reaches to the content', Abs(m - w) <= 0.0501)


@contract('C13', 'page.Page:Page.working_bbox')
def working(c):
    m = tuple(c.real(n, 0, 72) for n in ('left', 'right', 'top', 'bottom'))
    p = page(c, _margin=m)
    r = c.call(lambda: p.working_bbox)
    w = (m[0], m[2], p.width - m[1], p.height - m[3])
    c.ensures('the page without its margins', And(*[eq(x, y) for x, y in zip(r, w)]))


@contract(['C13', 'C21'], 'page.Page:Page.make_docx', n=0)
def section(c):
    log = []
    class Section:
        _pyvc_stub = True
    first, new = Section(), Section()
    paragraphs = c.choice('paragraphs', [0, 1, 2])
    class Doc:
        _pyvc_stub = True
        sections = [first]
        def __init__(self): self.paragraphs = [object()] * paragraphs
        def add_section(self, *a): log.append(a); return new
    class Blocks:
        _pyvc_stub = True
        def make_docx(self, d): log.append('content')
    l = Layout(); l.blocks = Blocks()
    m = tuple(c.real(n, 0, 72) for n in ('left', 'right', 'top', 'bottom'))
    p = page(c, _margin=m, layout=l)
    def pt(x): return ('pt', x)
    c.call(p.make_docx, Doc())
    s = new if paragraphs else first
    other = first if paragraphs else new
    c.ensures('a new section unless the document is empty', (len(log) == 2 and log[1] == 'content') if paragraphs else log == ['content'])
    NP = c.mod('page.Page').WD_SECTION.NEW_PAGE
    if paragraphs: c.ensures('the section begins on a new page', log[0] == (NP,) or log[0] == ())
    c.ensures('no other section changes', not vars(other))
    for n, v in (('page_width', p.width), ('page_height', p.height), ('left_margin', m[0]), ('right_margin', m[1]), ('top_margin', m[2]), ('bottom_margin', m[3])):
        x = getattr(s, n, None)
        c.ensures(f'{n} is written', x is not None and And(x / 12700 <= v, v < x / 12700 + 0.001))


# ------------------------------------------------ rotation
def turns(c, w, h):
    """rotation matrix of a page of unrotated size w x h, and its inverse"""
    deg = c.choice('rotation', [0, 90, 180, 270])
    m = {0: (1, 0, 0, 1, 0, 0), 90: (0, 1, -1, 0, h, 0), 180: (-1, 0, 0, -1, w, h), 270: (0, -1, 1, 0, 0, w)}[deg]
    d = {0: (1, 0, 0, 1, 0, 0), 90: (0, -1, 1, 0, 0, h), 180: (-1, 0, 0, -1, w, h), 270: (0, 1, -1, 0, w, 0)}[deg]
    return deg, tuple(map(num, m)), tuple(map(num, d))


def num(v): return float(v) if isinstance(v, int) else v


def shown(b, deg, w, h):
    """where a box of the unrotated page is displayed"""
    x0, y0, x1, y1 = b[0], b[1], b[2], b[3]
    return {0: (x0, y0, x1, y1), 90: (h - y1, x0, h - y0, x1), 180: (w - x1, h - y1, w - x0, h - y0), 270: (y0, w - x1, y1, w - x0)}[deg]


def near(a, b, d=0.0501): return And(*[Abs(x - y) <= d for x, y in zip(a, b)])


def with_matrix(c, m):
    E = c.mod('common.Element').Element
    E.ROTATION_MATRIX = m if sym() else c.matrix(*m)
    return E


@contract('C22', 'common.Element:Element.__init__')
def element(c):
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, _ = turns(c, w, h)
    E = with_matrix(c, m)
    b = c.rect('bbox')
    raw = {'bbox': tuple(b)} if c.choice('bbox given', [True, False]) else c.choice('raw', [{}, None])
    try: e = c.call(E, raw)
    finally: with_matrix(c, (1.0, 0.0, 0.0, 1.0, 0.0, 0.0))
    if raw: c.ensures('the box is where it is displayed', near(e.bbox, shown(b, deg, w, h)))
    else: c.ensures('no box', near(e.bbox, (0, 0, 0, 0)))


@contract('C22', 'shape.Shape:Shape.__init__')
def shape(c):
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, _ = turns(c, w, h)
    with_matrix(c, m)
    S = c.mod('shape.Shape')
    cls = c.choice('class', ['Fill', 'Hyperlink'])
    b = c.rect('bbox')
    try: e = c.call(getattr(S, cls), {'bbox': tuple(b), 'color': 5, 'type': 1 if cls == 'Hyperlink' else -1, 'uri': 'u'})
    finally: with_matrix(c, (1.0, 0.0, 0.0, 1.0, 0.0, 0.0))
    c.ensures('shapes are given as displayed', near(e.bbox, b))


@contract('C22', 'shape.Shape:Stroke.__init__')
def stroke(c):
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, _ = turns(c, w, h)
    with_matrix(c, m)
    hor = c.choice('horizontal', [True, False])
    a, b, y, lw = c.real('a', 0, 500), c.real('b', 0, 500), c.real('y', 0, 500), c.real('width', 0, 9)
    s, t = ((a, y), (b, y)) if hor else ((y, a), (y, b))
    try: e = c.call(c.mod('shape.Shape').Stroke, {'start': s, 'end': t, 'width': lw, 'color': 5})
    finally: with_matrix(c, (1.0, 0.0, 0.0, 1.0, 0.0, 0.0))
    lo, hi, k = Min(a, b), Max(a, b), lw / 2
    want = (lo - k, y - k, hi + k, y + k) if hor else (y - k, lo - k, y + k, hi + k)
    c.ensures('a stroke covers its line by its width', near(e.bbox, want))
    c.ensures('ends in ascending order', And(e.x0 <= e.x1, e.y0 <= e.y1))


@contract('C22', 'text.Line:Line.__init__')
def direction(c):
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, _ = turns(c, w, h)
    with_matrix(c, m)
    L, D = c.mod('text.Line').Line, c.mod('common.share').TextDirection
    k = c.choice('direction', [0, 90, 180, 270])
    V = {0: (1.0, 0.0), 90: (0.0, 1.0), 180: (-1.0, 0.0), 270: (0.0, -1.0)}       # turning clockwise
    try: e = c.call(L, {'dir': V[k], 'spans': []})
    finally: with_matrix(c, (1.0, 0.0, 0.0, 1.0, 0.0, 0.0))
    d = V[(k + deg) % 360]
    c.ensures('the direction is the displayed one', And(eq(e.dir[0], d[0]), eq(e.dir[1], d[1])))
    t = c.call(lambda: e.text_direction)
    c.ensures('left to right and bottom to top text is kept', t == {0: D.LEFT_RIGHT, 270: D.BOTTOM_TOP}.get((k + deg) % 360, D.IGNORE))


@contract(['C22', 'C21'], 'page.RawPage:RawPage._get_drawings', n=0)
def drawings(c):
    fitz = c.mod('page.RawPage').fitz
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, _ = turns(c, w, h)
    p, q, r, box = fitz.Point(c.real('px'), c.real('py')), fitz.Point(c.real('qx'), c.real('qy')), c.rect('re'), c.rect('rect')
    log = []
    class P:
        _pyvc_stub = True
        rotation, rotationMatrix = deg, m
        def setRotation(self, d): self.rotation = d; log.append(d)
        def getDrawings(self):
            # newer PyMuPDF: relative to the unrotated page; older: as displayed. Without rotation they agree
            if self.rotation: unsupported('drawings of a rotated page depend on the version of PyMuPDF')
            return [{'rect': box, 'items': [('l', p, q), ('re', r, 1)], 'width': 2.0, 'color': (1, 0, 0), 'fill': None, 'closePath': False}]
    pg = P()
    out = c.call(c.mod('page.RawPage').RawPage._get_drawings, pg)
    c.ensures('the page keeps its rotation', pg.rotation == deg)
    c.ensures('one path', len(out) == 1)
    o = out[0]
    pt = lambda v: shown((v[0], v[1], v[0], v[1]), deg, w, h)[:2]
    c.ensures('area as displayed', near(o['rect'], shown(box, deg, w, h), 0))
    (k1, a, b), (k2, rr) = o['items'][0][:3], o['items'][1][:2]
    c.ensures('the same commands', k1 == 'l' and k2 == 're')
    c.ensures('lines as displayed', And(near(a, pt(p), 0), near(b, pt(q), 0)))
    c.ensures('rectangles as displayed', near(rr, shown(r, deg, w, h), 0))
    c.ensures('width and colours are kept', o['width'] == 2.0 and o['color'] == (1, 0, 0) and o['fill'] is None and o['closePath'] is False)


def contours(ctx):
    def stub(cls, page, exclude): ctx.exclude = exclude; return ctx.found
    return stub


def clip(ctx):
    def stub(cls, page, bbox=None, zoom=3.0): ctx.log.append(bbox); return 'pixmap'
    return stub


def to_raw(ctx):
    def stub(cls, image, bbox): return {'image': image, 'bbox': bbox}
    return stub


IE = 'image.ImagesExtractor:ImagesExtractor'


@contract('C22', IE + '.extract_vector_graphics', n=0, stubs={IE + '._detect_svg_contours': contours, IE + '._clip_page': clip, IE + '._to_raw_dict': to_raw})
def vector_graphics(c):
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, d = turns(c, w, h)
    class P:
        _pyvc_stub = True
        rotation, rotationMatrix, derotationMatrix = deg, m, d
    box = c.rect('contour', nonempty=True)
    class Group:
        _pyvc_stub = True
        bbox = box
    class Found:
        _pyvc_stub = True
        def group(self, fun): return [Group()]
    c.found, c.log = Found(), []
    out = c.call(c.mod('image.ImagesExtractor').ImagesExtractor.extract_vector_graphics, P(), [])
    c.ensures('one picture', len(out) == 1 and out[0]['image'] == 'pixmap')
    c.ensures('the displayed area is clipped', len(c.log) == 1 and near(c.log[0], box, 0))
    c.ensures('the picture is displayed where it was found', near(shown(out[0]['bbox'], deg, w, h), box, 0))
