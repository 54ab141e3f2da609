"""C21: what one page, one call or one error leaves behind for the next"""
from pyvc.spec import *
from .layout import turns, near, num

RP = 'page.RawPage:RawPage'


class Failed(Exception): pass


# ------------------------------------------------ reading the source of a page
def pre(name):
    def factory(ctx):
        def stub(self, raw):
            ctx.log.append((name, self, raw))
            if ctx.fails == name: raise Failed()
        return stub
    return factory


@contract('C21', RP + '.raw_dict', n=0, stubs={RP + '._preprocess_images': pre('images'), RP + '._preprocess_shapes': pre('shapes')})
def raw_dict(c):
    """the rotation left by an earlier page does not matter, and the page reads its own source"""
    E, P = c.mod('common.Element').Element, c.mod('page.Page').Page
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, _ = turns(c, w, h)
    c.log, c.fails = [], c.choice('fails', [None, 'images', 'shapes'])
    old = c.choice('left by an earlier page', [(1.0, 0.0, 0.0, 1.0, 0.0, 0.0), (0.0, 1.0, -1.0, 0.0, 600.0, 0.0), (-1.0, 0.0, 0.0, -1.0, 600.0, 800.0)])
    E.set_rotation_matrix(c.matrix(*old))
    dw, dh = (w, h) if deg in (0, 180) else (h, w)
    no = c.int('number', 0, None)
    class Source:
        _pyvc_stub = True
        number = no
        rect = c.mkrect(0, 0, dw, dh)
        rotationMatrix = c.matrix(*m)
        def getText(self, kind, **k): return {'width': w, 'height': h, 'blocks': ['own']}
        get_text = getText
    src = Source()
    p = c.raw(P, fitz_page=src, width=0, height=0, settings={})
    try: raw = p.raw_dict
    except Failed: return
    c.ensures('number of the page', eq(raw['id'], no))
    c.ensures('its own blocks', raw['blocks'] == ['own'])
    c.ensures('size as displayed', And(eq(raw['width'], dw), eq(raw['height'], dh)))
    c.ensures('pictures, then drawings are read', [k for k, s, r in c.log] == ['images', 'shapes'] and all(s is p and r is raw for k, s, r in c.log))
    b = c.rect('box')
    e = c.call(E, {'bbox': (b[0], b[1], b[2], b[3])})
    x0, y0, x1, y1 = b[0], b[1], b[2], b[3]
    want = {0: (x0, y0, x1, y1), 90: (h - y1, x0, h - y0, x1), 180: (w - x1, h - y1, w - x0, h - y0), 270: (y0, w - x1, y1, w - x0)}[deg]
    c.ensures('boxes are turned as this page is', near(e.bbox, want))


@contract('C21', RP + '._get_drawings', n=0)
def drawings_fail(c):
    """a page whose drawings cannot be read is left turned as it was"""
    w, h = c.real('w', 1, 2000), c.real('h', 1, 2000)
    deg, m, _ = turns(c, w, h)
    class P:
        _pyvc_stub = True
        rotation, rotationMatrix = deg, m
        def setRotation(self, d): self.rotation = d
        set_rotation = setRotation
        def getDrawings(self): raise Failed()
        get_drawings = getDrawings
    pg, failed = P(), False
    try: c.mod('page.RawPage').RawPage._get_drawings(pg)
    except Failed: failed = True
    c.ensures('the error is not swallowed', failed)
    c.ensures('the page keeps its rotation', pg.rotation == deg)


class Lib:
    """stand-in of fitz"""
    _pyvc_stub = True
    @staticmethod
    def Matrix(*a): return ('matrix',) + a


@contract(['C21', 'C10'], 'image.ImagesExtractor:ImagesExtractor._clip_page', n=0, stubs={'image.ImagesExtractor:fitz': lambda ctx: Lib}, within='pages of up to 3 content streams, of the page or of forms')
def clip_page(c):
    """the text hidden while a page is drawn is back afterwards, also if drawing fails"""
    n, fails, area, zoom = c.choice('streams', [0, 1, 2, 3]), c.choice('fails', [False, True]), c.choice('area', [False, True]), c.real('zoom', .1, 10)
    forms = c.choice('of forms', list(range(n + 1)))
    source = {5 + k: b'q BT /F%d 9 Tf %d Tr 1 0 0 1 9 9 Tm (a) Tj ET Q' % (k, k) for k in range(n)}
    now, drawn = dict(source), []
    class Doc:
        _pyvc_stub = True
        def xrefStream(self, x): return now[x]
        xref_stream = xrefStream
        def updateStream(self, x, s, *a, **k): now[x] = s
        update_stream = updateStream
    class P:
        _pyvc_stub = True
        parent = Doc()
        rect = c.mkrect(0, 0, c.real('w', 1, 2000), c.real('h', 1, 2000))
        def get_contents(self): return list(source)[forms:]
        def get_xobjects(self): return [(x, 'name', 0, None) for x in list(source)[:forms]]
        getContents = get_contents
        def getPixmap(self, clip=None, matrix=None, **k):
            drawn.append((all(now[x] != source[x] for x in source), clip, matrix))
            if fails: raise Failed()
            return 'drawn'
        get_pixmap = getPixmap
    box, pg = c.rect('area', nonempty=True), P()
    failed, r = False, None
    try: r = c.mod('image.ImagesExtractor').ImagesExtractor._clip_page(pg, box if area else None, zoom)
    except Failed: failed = True
    c.ensures('an error is not swallowed', failed == fails and (r == 'drawn') == (not fails))
    c.ensures('drawn once, without text', len(drawn) == 1 and drawn[0][0])
    q, m = drawn[0][1], drawn[0][2]
    c.ensures('the part of the area that is on the page', And([eq(u, v) for u, v in zip(q, box & pg.rect if area else pg.rect)]))
    c.ensures('at the resolution asked for', And(eq(m[1], zoom), eq(m[2], zoom)))
    c.ensures('every content stream is as before', set(now) == set(source) and all(now[k] == source[k] for k in source))


# ------------------------------------------------ a page that is parsed again
@contract('C21', 'shape.Shapes:Shapes.hyperlinks', n=0)
def links_again(c):
    """the links of a page are the present ones, not those of an earlier analysis"""
    S, H, F = c.mod('shape.Shapes').Shapes, c.mod('shape.Shape').Hyperlink, c.mod('shape.Shape').Fill
    def link(k): return c.raw(H, uri=k, bbox=c.mkrect(k, 1, k + 1, 2), _parent=None)
    def fill(k): return c.raw(F, bbox=c.mkrect(k, 1, k + 1, 2), _parent=None)
    sh = c.raw(S, _instances=[link(1), fill(2)], _parent=None)
    if c.choice('used before', [False, True]): c.call(lambda: list(sh.hyperlinks))
    later = [link(3), fill(4), link(5)] if c.choice('later', [False, True]) else []
    c.call(sh.reset, later)
    got = c.call(lambda: list(sh.hyperlinks))
    c.ensures('the present links, in order', [g.uri for g in got] == [e.uri for e in later if isinstance(e, H)])


def record(name):
    def factory(ctx):
        def stub(self, raws): ctx.log.append((name, self, raws)); return self
        return stub
    return factory


@contract('C21', 'page.Layout:Layout.restore', stubs={'page.Blocks:Blocks.restore': record('blocks'), 'shape.Shapes:Shapes.restore': record('shapes')}, n=0)
def layout_again(c):
    """both collections of a layout begin anew, also from a source without blocks or shapes"""
    L, B, S = c.mod('page.Layout').Layout, c.mod('page.Blocks').Blocks, c.mod('shape.Shapes').Shapes
    c.log = []
    b, s = c.raw(B), c.raw(S)
    l = c.raw(L, _parent=None, blocks=b, shapes=s)
    data = c.choice('source', [{}, {'blocks': [1]}, {'shapes': [2]}, {'blocks': [1], 'shapes': [2]}])
    r = c.call(l.restore, data)
    c.ensures('the same layout', r is l and l.blocks is b and l.shapes is s)
    c.ensures('each begins anew, once', sorted(k for k, o, v in c.log) == ['blocks', 'shapes'] and all(o is {'blocks': b, 'shapes': s}[k] and list(v) == data.get(k, []) for k, o, v in c.log))


@contract('C21', 'shape.Shapes:Shapes.restore', n=0)
def shapes_again(c):
    """shapes of a page begin anew"""
    S, F = c.mod('shape.Shapes').Shapes, c.mod('shape.Shape').Fill
    old = [c.raw(F, bbox=c.mkrect(k, 7, k + 1, 8), _parent=None) for k in range(c.choice('old', [0, 1, 3]))]
    sh = c.raw(S, _instances=list(old), _parent=None)
    raws = [{'bbox': (1.0, 1.0, 5.0 + k, 9.0), 'color': 0, 'type': -1} for k in range(c.choice('new', [0, 1, 2]))]
    r = c.call(sh.restore, raws)
    c.ensures('the present shapes only', r is sh and len(sh) == len(raws) and not any(x is o for x in sh for o in old))


@contract('C21', 'page.Page:Page.restore', stubs={'page.Layout:Layout.restore': record('layout')}, n=0)
def page_again(c):
    """size, margin and content of a page are those of the source it is read from, nothing of an earlier one"""
    P, L = c.mod('page.Page').Page, c.mod('page.Layout').Layout
    c.log = []
    l = c.raw(L)
    p = c.raw(P, id=c.int('old id'), width=c.real('old width'), height=c.real('old height'), _margin=(9.0, 9.0, 9.0, 9.0), layout=l, _finalized=c.bool('old'))
    have = c.choice('stored', [False, True])
    no, w, h, m = c.int('id', 0, None), c.real('width', 1, 2000), c.real('height', 1, 2000), tuple(c.real(n, 0, 72) for n in ('left', 'right', 'top', 'bottom'))
    data = {'id': no, 'width': w, 'height': h, 'blocks': [], 'shapes': []}
    if have: data['margin'] = m
    c.call(p.restore, data)
    c.ensures('number and size', And(eq(p.id, no), eq(p.width, w), eq(p.height, h)))
    c.ensures('margin', And(*[eq(x, y) for x, y in zip(p.margin, m if have else (0, 0, 0, 0))]))
    c.ensures('the content', len(c.log) == 1 and c.log[0][1] is l and c.log[0][2] is data)
