"""C04: stored values are those restored, class by class"""
from pyvc.spec import *

KEYS = ('left_space', 'right_space', 'first_line_space', 'before_space', 'after_space', 'line_space', 'left_space_total', 'right_space_total')


def upright(c):
    """restored data are in real page CS: no rotation is pending (set by Converter.restore, proved below)"""
    E = c.mod('common.Element').Element
    E.set_rotation_matrix(c.matrix(1, 0, 0, 1, 0, 0))


def tenth(c, name):
    """bbox as recorded: coordinates are multiples of 0.1"""
    k = [c.int(f'{name}{i}', -100, 5000) for i in range(4)]
    return [x / 10 for x in k]


def same_seq(c, label, a, b):
    c.ensures(label, len(a) == len(b) and And([eq(x, y) for x, y in zip(a, b)]))


def check_store(c, obj, want):
    """obj.store() has these values and restoring it gives them again"""
    s = c.call(obj.store)
    for k, v in want.items():
        if isinstance(v, (list, tuple)): same_seq(c, f'{k} is stored', s[k], v)
        else: c.ensures(f'{k} is stored', s[k] is None if v is None else eq(s[k], v))
    return s


def matches(c, obj, want, get):
    for k, v in want.items():
        g = get(obj, k)
        if isinstance(v, (list, tuple)): same_seq(c, f'{k} is restored', g, v)
        else: c.ensures(f'{k} is restored', g is None if v is None else eq(g, v))


@contract('C04', 'common.Block:Block.store')
def block(c):
    upright(c)
    B = c.mod('common.Block').Block
    want = {k: c.real(k) for k in KEYS}
    raw = dict(want)
    raw['alignment'] = c.choice('alignment', [0, 1, 2, 3, 4])
    raw['tab_stops'] = want['tab_stops'] = [c.real('tab0'), c.real('tab1')]
    raw['bbox'] = tenth(c, 'b')
    b = c.call(B, raw)
    s = check_store(c, b, want)
    c.ensures('alignment is stored', s['alignment'] == raw['alignment'])
    b2 = c.call(B, s)
    matches(c, b2, want, getattr)
    same_seq(c, 'bbox is restored', list(b2.bbox), raw['bbox'])
    c.ensures('alignment is restored', b2.alignment.value == raw['alignment'])


@contract('C04', 'text.Char:Char.store')
def char(c):
    upright(c)
    C = c.mod('text.Char').Char
    raw = dict(c=c.str('c'), origin=(c.real('ox'), c.real('oy')), bbox=tenth(c, 'b'))
    x = c.call(C, c.call(C, raw).store())
    c.ensures('character is restored', eq(x.c, raw['c']))
    same_seq(c, 'origin is restored', x.origin, raw['origin'])
    same_seq(c, 'bbox is restored', list(x.bbox), raw['bbox'])


@contract('C04', 'text.TextSpan:TextSpan.store', stubs={'text.TextSpan:TextSpan.set_font': lambda ctx: (lambda self, n: None)})
def span(c):
    upright(c)
    T = c.mod('text.TextSpan').TextSpan
    k = c.choice('chars', [0, 2])
    chars = [dict(c=c.str(f'c{i}'), origin=(c.real(f'ox{i}'), c.real(f'oy{i}')), bbox=tenth(c, f'c{i}b')) for i in range(k)]
    raw = dict(color=c.int('color', 0), font=c.choice('font', ['Arial', 'ABCDEF+Times New Roman']), size=c.real('size', 1), flags=c.int('flags', 0, 31),
               chars=chars, style=c.choice('style', [[], [{'type': 1, 'color': 7}, {'type': 0, 'color': 9}], [{'type': 1, 'color': 7}, {'type': 0, 'color': 9}, {'type': 2, 'color': 3}, {'type': 3, 'color': 0, 'uri': 'u'}]]), bbox=tenth(c, 'b'))
    a = c.call(T, raw)
    s = c.call(a.store)
    for key in ('color', 'size', 'flags'): c.ensures(f'{key} is stored', eq(s[key], raw[key]))
    b = c.call(T, s)
    for key in ('color', 'size', 'flags'): c.ensures(f'{key} is restored', eq(getattr(b, key), raw[key]))
    c.ensures('font is restored', b.font == a.font)
    c.ensures('style is restored', len(b.style) == len(raw['style']) and all(dict(p) == q for p, q in zip(b.style, raw['style'])))
    c.ensures('all characters are restored', len(b.chars) == k and And([And(eq(p.c, q['c']), And([eq(u, v) for u, v in zip(p.bbox, q['bbox'])])) for p, q in zip(b.chars, chars)] or [True]))
    same_seq(c, 'bbox is restored', list(b.bbox), raw['bbox'])


@contract('C04', 'text.Line:Line.store')
def line(c):
    upright(c)
    L = c.mod('text.Line').Line
    raw = dict(wmode=0, dir=c.choice('dir', [[1.0, 0.0], [0.0, -1.0]]), line_break=c.int('line_break', 0, 1), tab_stop=0, spans=[])
    a = c.call(L, raw)
    s = c.call(a.store)
    b = c.call(L, s)
    same_seq(c, 'direction is restored', list(b.dir), list(raw['dir']))
    c.ensures('line break is restored', eq(b.line_break, raw['line_break']))


@contract('C04', 'shape.Shape:Fill')
def fill(c):
    F = c.mod('shape.Shape').Fill
    raw = dict(color=c.int('color'), bbox=tenth(c, 'b'), type=c.choice('type', [t.value for t in c.mod('common.share').RectType]))
    a = c.call(F, raw)
    b = c.call(F, c.call(a.store))
    same_seq(c, 'bbox is restored', list(b.bbox), raw['bbox'])
    c.ensures('colour is restored', eq(b.color, raw['color']))
    c.ensures('type is restored', b.type.value == raw['type'])


@contract('C04', 'shape.Shape:Hyperlink')
def link(c):
    H = c.mod('shape.Shape').Hyperlink
    raw = dict(uri=c.str('uri'), bbox=tenth(c, 'b'))
    b = c.call(H, c.call(H, raw).store())
    same_seq(c, 'bbox is restored', list(b.bbox), raw['bbox'])
    c.ensures('target is restored', eq(b.uri, raw['uri']))


@contract('C04', 'shape.Shape:Stroke.store')
def stroke(c):
    S_ = c.mod('shape.Shape').Stroke
    x0, y0, d = c.int('x0', 0, 9000), c.int('y0', 0, 9000), c.int('d', 1, 500)
    w = c.real('w', 0.1, 6)
    h = c.choice('direction', ['h', 'v'])
    p, q = (x0 / 10, y0 / 10), ((x0 + d) / 10, y0 / 10) if h == 'h' else (x0 / 10, (y0 + d) / 10)
    raw = dict(start=p, end=q, width=w, color=c.int('color'), type=c.choice('type', [t.value for t in c.mod('common.share').RectType]))
    a = c.call(S_, raw)
    b = c.call(S_, c.call(a.store))
    c.ensures('end points are restored', And(eq(b._start.x, p[0]), eq(b._start.y, p[1]), eq(b._end.x, q[0]), eq(b._end.y, q[1])))
    c.ensures('width is restored', eq(b.width, w))
    c.ensures('colour is restored', eq(b.color, raw['color']))
    c.ensures('type is restored', b.type.value == raw['type'])
    same_seq(c, 'bbox is restored', list(b.bbox), list(a.bbox))


@contract('C04', 'table.Cell:Cell.store')
def cell(c):
    upright(c)
    C = c.mod('table.Cell').Cell
    bb = tenth(c, 'b')
    c.requires(Or(bb[0] != 0, bb[1] != 0, bb[2] != 0, bb[3] != 0))
    raw = dict(bg_color=c.choice('bg', [None, c.int('bg_color', 0)]), border_color=tuple(c.int(f'bc{i}', 0) for i in range(4)), border_width=tuple(c.real(f'bw{i}', 0) for i in range(4)),
               merged_cells=(c.int('mr', 0), c.int('mc', 0)), bbox=bb)
    b = c.call(C, c.call(C, raw).store())
    c.ensures('shading is restored', b.bg_color is None if raw['bg_color'] is None else eq(b.bg_color, raw['bg_color']))
    for k in ('border_color', 'border_width', 'merged_cells'): same_seq(c, f'{k} is restored', getattr(b, k), raw[k])
    same_seq(c, 'bbox is restored', list(b.bbox), bb)


@contract('C04', 'table.Row:Row.store')
def row(c):
    upright(c)
    R_ = c.mod('table.Row').Row
    raw = dict(height=c.real('height', 0), cells=[dict(bbox=tenth(c, 'c0'), bg_color=3, merged_cells=(1, 2)), None], bbox=tenth(c, 'b'))
    c.requires(Not(eq(raw['cells'][0]['bbox'][3], 0)))
    a = c.call(R_, raw)
    b = c.call(R_, c.call(a.store))
    c.ensures('height is restored', eq(b.height, raw['height']))
    c.ensures('cells are restored, merged ones included', And(len(a._cells) == 2, len(b._cells) == 2, eq(b[0].bg_color, 3), b[0].merged_cells == (1, 2), Not(bool(b[1]))))


@contract('C04', 'common.Element:Element.store')
def element(c):
    """stored in real page CS: restoring rotates only by the pending rotation, which Converter.restore removes"""
    upright(c)
    E = c.mod('common.Element').Element
    bb = tenth(c, 'b')
    e = c.call(E, dict(bbox=bb))
    same_seq(c, 'bbox is stored', list(c.call(e.store)['bbox']), bb)
    f = c.call(E, e.store())
    same_seq(c, 'bbox is restored', list(f.bbox), bb)


def layout_raw(c):
    """one block of every kind, boxes symbolic"""
    def bb(n):
        k = [c.int(f'{n}{i}', 10, 3000) for i in range(4)]
        return [k[0] / 10, k[1] / 10, (k[0] + k[2]) / 10, (k[1] + k[3]) / 10]
    def sp(n): return dict(color=c.int(n + 'color', 0), font='Arial', size=c.real(n + 'size', 1), flags=0, chars=[dict(c='x', origin=(0.0, 0.0), bbox=bb(n + 'c'))], style=[], bbox=bb(n))
    img = dict(ext='png', width=4, height=5, image='AAEC', bbox=bb('i'))
    line = dict(wmode=0, dir=[1.0, 0.0], line_break=1, tab_stop=0, spans=[sp('s0'), dict(img, bbox=bb('j'))])
    return [
        dict(type=0, alignment=2, before_space=c.real('before'), lines=[line]),
        dict(type=2, before_space=3.0, rows=[dict(height=c.real('h2', 0), bbox=bb('r2'), cells=[dict(bbox=bb('c2'), bg_color=None, border_color=(1, 2, 3, 4), border_width=(1.0, 1.0, 1.0, 1.0), merged_cells=(1, 1), blocks=[])])]),
        dict(type=3, before_space=4.0, rows=[dict(height=c.real('h3', 0), bbox=bb('r3'), cells=[dict(bbox=bb('c3'), bg_color=5, border_color=(1, 2, 3, 4), border_width=(0, 0, 0, 0), merged_cells=(1, 1),
                                                                                             blocks=[dict(type=0, lines=[dict(wmode=0, dir=[1.0, 0.0], line_break=0, tab_stop=0, spans=[sp('s1')])])])])]),
        dict(type=4, ext='jpg', width=7, height=8, image='AQ==', bbox=bb('f'))]


def kinds(bs): return [type(b).__name__ if not sym() else __import__('pyvc.values').values.realclass(b).__name__ for b in bs]


@contract(['C04', 'C21'], 'page.Blocks:Blocks.restore', timeout=20)
def blocks(c):
    """every kind of block is restored as that kind, with its contents, and restoring twice changes nothing"""
    upright(c)
    import copy
    B = c.mod('page.Blocks').Blocks
    raws = layout_raw(c)
    spans = [raws[0]['lines'][0]['spans'][0], raws[2]['rows'][0]['cells'][0]['blocks'][0]['lines'][0]['spans'][0]]
    colors, sizes = [s['color'] for s in spans], [s['size'] for s in spans]
    heights = [raws[k]['rows'][0]['height'] for k in (1, 2)]
    a = c.call(B)
    c.call(a.restore, raws)
    b = c.call(B)
    for times in range(c.choice('times', [1, 2])): c.call(b.restore, c.call(a.store))
    c.ensures('same blocks', kinds(b) == ['TextBlock', 'TableBlock', 'TableBlock'])
    c.ensures('floating images', len(b.floating_image_blocks) == 1 and b.floating_image_blocks[0].image == b'\x01' and b.floating_image_blocks[0].ext == 'jpg' and b.floating_image_blocks[0].is_float_image_block())
    c.ensures('kinds of tables', b[1].is_lattice_table_block() and not b[1].is_stream_table_block() and b[2].is_stream_table_block())
    t = b[0]
    c.ensures('paragraph format', And(t.alignment.value == 2, eq(t.before_space, a[0].before_space)))
    sp = list(t.lines[0].spans)
    c.ensures('spans', kinds(sp) == ['TextSpan', 'ImageSpan'] and sp[1].image == b'\x00\x01\x02' and t.lines[0].line_break == 1)
    s1 = b[2][0][0].layout.blocks[0].lines[0].spans[0]
    c.ensures('text formats', And(eq(sp[0].color, colors[0]), eq(sp[0].size, sizes[0]), eq(s1.color, colors[1]), eq(s1.size, sizes[1]), sp[0].text == 'x', s1.text == 'x'))
    c.ensures('tables', And(eq(b[1][0].height, heights[0]), eq(b[2][0].height, heights[1]), b[1][0][0].bg_color is None, eq(b[2][0][0].bg_color, 5), eq(b[2].before_space, 4.0)))


class RestoredPage:
    _pyvc_stub = True
    def __init__(self, k, log): self.k, self.log = k, log
    def restore(self, raw): self.log.append((self.k, raw))


@contract(['C04', 'C21'], 'converter:Converter.restore')
def load_pages(c):
    """each stored page goes to the page it came from, in real page CS whatever was parsed before"""
    C, E = c.mod('converter').Converter, c.mod('common.Element').Element
    rot = c.choice('pending', [(1, 0, 0, 1, 0, 0), (0, 1, -1, 0, 600, 0), (-1, 0, 0, -1, 600, 800)])
    E.set_rotation_matrix(c.matrix(*rot))
    log = []
    cv = c.raw(C, _pages=[RestoredPage(k, log) for k in range(4)])
    ids = c.choice('ids', [[0, 2], [3], [], [1, 0]])
    raws = [dict(id=i, marker=7) for i in ids]
    c.call(cv.restore, dict(pages=raws, page_num=4))
    c.ensures('each to its page', [k for k, _ in log] == ids and all(r is q for (_, r), q in zip(log, raws)))
    bb = tenth(c, 'b')
    e = c.call(E, dict(bbox=bb))
    same_seq(c, 'restored boxes are not rotated again', list(e.bbox), bb)
