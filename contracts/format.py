"""C18: runs show the font, size, colour, weight, slant and superscript of the text"""
import re
from pyvc.spec import *

W = '{http://schemas.openxmlformats.org/wordprocessingml/2006/main}'


class Rec:
    """a recorder standing in for a python-docx object: remembers what is set on it"""
    _pyvc_stub = True
    def __init__(self, **k): self.__dict__.update(k)


class Props:
    """w:rPr / w:pPr: elements in the order they were put"""
    _pyvc_stub = True
    def __init__(self): self.els = []
    def insert(self, i, e): self.els.insert(i, e)
    def append(self, e): self.els.append(e)


class El:
    """a low level run or paragraph element"""
    _pyvc_stub = True
    def __init__(self): self.props = Props()
    def get_or_add_rPr(self): return self.props
    get_or_add_pPr = get_or_add_tcPr = get_or_add_rPr


def value(text):
    """value behind an attribute text"""
    m = re.fullmatch('\u27e6(\\d+)\u27e7', text)
    if not m: return text
    from pyvc.core import TOKENS
    return TOKENS[int(m.group(1))]


def digits(text, ndigits=6):
    """number behind exactly `ndigits` hexadecimal digits"""
    v = value(text)
    if isinstance(v, str): return int(v, 16) if len(v) == ndigits else unsupported(f'{v!r} are not {ndigits} digits')
    if getattr(v, 'w', None) != ndigits: unsupported('not hexadecimal digits')
    return v.n


def attr(e, name): return value(e.get(W + name))


@contract(['C14', 'C18'], 'common.share:rgb_component')
def components(c):
    v = c.int('color', 0, 2 ** 24 - 1)
    r = list(c.call(c.mod('common.share').rgb_component, v))
    c.ensures('three components', len(r) == 3)
    c.ensures('the bytes of the colour', And(eq(r[0], v // 65536), eq(r[1], v // 256 % 256), eq(r[2], v % 256)))


@contract('C18', 'common.docx:set_char_scaling', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def scaling(c):
    r = Rec(_r=El())
    s = c.real('scale', 0)
    c.requires(s > 0)
    c.call(c.mod('common.docx').set_char_scaling, r, s)
    es = r._r.props.els
    c.ensures('one w:w element', len(es) == 1 and es[0].tag == W + 'w')
    c.ensures('the scale in per cent', eq(attr(es[0], 'val'), 100 * s))


@contract(['C08', 'C18'], 'common.docx:set_char_underline', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def underline(c):
    r = Rec(_r=El())
    v = c.int('color', 0, 2 ** 24 - 1)
    c.call(c.mod('common.docx').set_char_underline, r, v)
    es = r._r.props.els
    c.ensures('one w:u element', len(es) == 1 and es[0].tag == W + 'u')
    c.ensures('a single line of this colour', And(es[0].get(W + 'val') == 'single', eq(digits(es[0].get(W + 'color')), v)))


HL = dict(RED=0xFF0000, BRIGHT_GREEN=0x00FF00, BLUE=0x0000FF, YELLOW=0xFFFF00, PINK=0xFF00FF, TURQUOISE=0x00FFFF)
@contract(['C08', 'C18'], 'common.docx:set_char_shading', n=0, assumes=['python-docx and lxml create the XML elements they are asked for'])
def shading(c):
    from docx.enum.text import WD_COLOR_INDEX as WD
    r = Rec(_r=El(), font=Rec(highlight_color=None))
    v = c.int('color', 0, 2 ** 24 - 1)
    c.call(c.mod('common.docx').set_char_shading, r, v)
    es = r._r.props.els
    h = r.font.highlight_color
    if h is not None:
        c.ensures('a highlight of just this colour', any(h == getattr(WD, k) for k in HL) and eq(v, [x for k, x in HL.items() if h == getattr(WD, k)][0]))
        c.ensures('no shading besides a highlight', es == [])
    else:
        c.ensures('shading', len(es) == 1 and es[0].tag == W + 'shd')
        c.ensures('of this colour', eq(digits(es[0].get(W + 'fill')), v))


# ------------------------------------------------ the formats of a run
def rec(name):
    """contracts of the helpers proved above: the run gets this value"""
    def factory(ctx):
        def stub(run, v): getattr(ctx, name).append(v)
        return stub
    return factory


def comps(ctx):
    """contract of rgb_component"""
    def stub(v): return ctx.vlist([v // 65536, v // 256 % 256, v % 256])
    return stub


def family(ctx):
    """contract of TextSpan.font (bounded check below): some name"""
    return lambda self: 'Family'


STUBS = {'common.docx:set_char_scaling': rec('scales'), 'common.docx:set_char_shading': rec('shading'), 'common.docx:set_char_underline': rec('underline'),
         'common.share:rgb_component': comps, 'text.TextSpan:TextSpan.font': family}


class RFonts:
    _pyvc_stub = True
    def __init__(self): self.d = {}
    def set(self, k, v): self.d[k] = v


def docx_run():
    f = RFonts()
    return Rec(font=Rec(superscript=None, name=None, size=None, color=Rec(rgb=None), underline=None, strike=None), italic=None, bold=None,
               _element=Rec(rPr=Rec(rFonts=f))), f


def the_span(c, style):
    size = c.real('size', 0.01)
    flags = c.int('flags', 0, 2 ** 16)
    color = c.int('color', 0, 2 ** 24 - 1)
    return c.raw(c.mod('text.TextSpan').TextSpan, bbox=c.rect('b', nonempty=True), chars=c.vlist([]), style=style, color=color, size=size, flags=flags, _font='Family', _parent=None)


STYLE = ('rec', dict(type='int', color='int', uri='str'))


def marks_loop():
    """what the marks up to position k did to the run"""
    def inv(L):
        RT, run, seq, k = ghost('RT'), L.docx_run, L.seq_, L.k_
        t = lambda j: at(seq, j)['type']
        sh, un = ghost('shading'), ghost('underline')
        return [('strike exactly if marked so', Iff(run.font.strike is not None and run.font.strike, exists(0, k, lambda j: t(j) == RT.STRIKE.value))),
                ('every shading is that of a highlight', forall(0, Len(sh), lambda q: exists(0, k, lambda j: And(t(j) == RT.HIGHLIGHT.value, at(seq, j)['color'] == at(sh, q))))),
                ('every highlight has its shading', forall(0, k, lambda j: Implies(t(j) == RT.HIGHLIGHT.value, exists(0, Len(sh), lambda q: at(sh, q) == at(seq, j)['color'])))),
                ('every coloured underline is that of a mark', forall(0, Len(un), lambda q: exists(0, k, lambda j: And(t(j) == RT.UNDERLINE.value, at(seq, j)['color'] == at(un, q))))),
                ('a plain underline is that of a mark in the colour of the text', Iff(run.font.underline is not None and run.font.underline, exists(0, k, lambda j: And(t(j) == RT.UNDERLINE.value, at(seq, j)['color'] == L.self.color)))),
                ('every other underline is there', forall(0, k, lambda j: Implies(And(t(j) == RT.UNDERLINE.value, at(seq, j)['color'] != L.self.color), exists(0, Len(un), lambda q: at(un, q) == at(seq, j)['color']))))]
    return Loop(inv=inv, types={'shading': 'int', 'underline': 'int'})


@contract('C18', 'text.TextSpan:TextSpan._set_text_format', n=0, stubs=STUBS, loops={0: marks_loop()}, assumes=['python-docx sets the attributes it is given (Pt: 12700 EMU per point)'])
def formatting(c):
    ghost('RT', c.mod('common.share').RectType)
    c.scales, c.shading, c.underline = c.vlist([]), ghost('shading', c.vlist([])), ghost('underline', c.vlist([]))
    style = c.list('style', STYLE)
    s = the_span(c, style)
    n, src = Len(style), style.copy()
    r, f = docx_run()
    c.call(s._set_text_format, r)
    c.ensures('superscript by the flag', Iff(r.font.superscript, s.flags % 2 == 1))
    c.ensures('italic by the flag', Iff(r.italic, s.flags // 2 % 2 == 1))
    c.ensures('bold by the flag', Iff(r.bold, s.flags // 16 % 2 == 1))
    c.ensures('the font of the text, for all scripts', r.font.name == 'Family' and f.d == {W + 'eastAsia': 'Family'})
    q = r.font.color.rgb
    c.ensures('the colour of the text', And(eq(q[0], s.color // 65536), eq(q[1], s.color // 256 % 256), eq(q[2], s.color % 256)))
    emu, low = r.font.size, toint(2 * s.size)        # 6350 EMU per half point
    c.ensures('whole half points', Or(eq(emu, 6350 * low), eq(emu, 6350 * (low + 1)), eq(emu, 6350)))
    c.ensures('the nearest ones', Or(Abs(2 * s.size * 6350 - emu) <= 3175, And(eq(emu, 6350), 2 * s.size <= 1)))
    c.ensures('at least half a point', emu >= 6350)
    sc = c.scales
    c.ensures('at most one scaling', Len(sc) <= 1)
    if Len(sc) == 1: c.ensures('the scaling makes up for the rounding', eq(at(sc, 0) * emu, s.size * 12700))
    else: c.ensures('no scaling only if it makes no difference', Abs(s.size * 12700 - emu) * 100 <= emu)
    RT = c.mod('common.share').RectType
    t = lambda j: at(src, j)['type']
    some = lambda k: exists(0, n, lambda j: t(j) == k.value)
    c.ensures('struck through exactly if marked so', Iff(r.font.strike is not None and r.font.strike, some(RT.STRIKE)))
    c.ensures('underlined exactly if marked so', Iff(Or(r.font.underline is not None and r.font.underline, Len(c.underline) > 0), some(RT.UNDERLINE)))
    c.ensures('shaded exactly if marked so', Iff(Len(c.shading) > 0, some(RT.HIGHLIGHT)))
    c.ensures('shaded in the colour of a mark', forall(0, Len(c.shading), lambda q: exists(0, n, lambda j: And(t(j) == RT.HIGHLIGHT.value, at(src, j)['color'] == at(c.shading, q)))))
    c.ensures('underlined in the colour of a mark', forall(0, Len(c.underline), lambda q: exists(0, n, lambda j: And(t(j) == RT.UNDERLINE.value, at(src, j)['color'] == at(c.underline, q)))))


@contract('C18', 'text.TextSpan:TextSpan.font', n=400, bounded='string operations: checked on generated font names')
def font_name(c):
    T = c.mod('text.TextSpan').TextSpan
    local = {'SimSun': '宋体', 'Sim Sun': '宋体', 'Microsoft_YaHei': '微软雅黑', 'ArialNarrow': 'Arial Narrow', 'KaiTi': '楷体', 'FangSong_GB2312': '仿宋_GB2312'}
    base = c.choice('base', list(local) + ['Calibri', 'Times New Roman', 'X', 'Verdana Pro', 'TimesNewRomanPSMT', 'Cambria,Math'])
    name = c.choice('prefix', ['', 'ABCDEF+', 'X+']) + base + c.choice('suffix', ['', '-Bold', '-Bold-Italic', '-'])
    s = c.raw(T, _font=name, bbox=c.rect('b'), chars=[], style=[], color=0, size=10.0, flags=0)
    r = c.call(lambda: s.font)
    c.ensures('family without subset prefix and style, localised', r == local.get(base, base).replace(',', ' '))


# ------------------------------------------------ writing a span
class Par:
    _pyvc_stub = True
    def __init__(self, log): self.log = log
    def add_run(self, text=None): self.log.append(('run', text)); return 'run'


class Txt:
    """the text of a span: blank or not"""
    _pyvc_stub = True
    def __init__(self, blank): self.blank = blank
    def strip(self, *a): return '' if a or self.blank else 'x'


def link(ctx):
    def stub(paragraph, url, text): ctx.log.append(('link', url, text)); return 'run'
    return stub


def formatted(ctx):
    def stub(self, r): ctx.log.append(('format', self, r))
    return stub


def xml(ctx):
    def stub(t): return ('xml', t)
    return stub


@contract('C18', 'text.TextSpan:TextSpan.make_docx', n=0, stubs={'common.docx:add_hyperlink': link, 'common.docx:xml_text': xml, 'text.TextSpan:TextSpan._set_text_format': formatted,
    'text.TextSpan:TextSpan.text': lambda ctx: lambda self: ctx.text}, loops={0: Loop(inv=lambda L: [('no link before', forall(0, L.k_, lambda j: Or(ghost('blank'), at(L.seq_, j)['type'] != ghost('LINK')))) ])})
def write_span(c):
    RT = c.mod('common.share').RectType
    style = c.list('style', STYLE)
    src, n = style.copy(), Len(style)
    s = the_span(c, style)
    c.log = []
    blank = c.choice('blank', [True, False])
    ghost('blank', blank); ghost('LINK', RT.HYPERLINK.value)
    c.text = Txt(blank)
    c.call(s.make_docx, Par(c.log))
    some = exists(0, n, lambda j: at(src, j)['type'] == RT.HYPERLINK.value)
    c.ensures('one run, formatted', len(c.log) == 2 and c.log[1][0] == 'format' and c.log[1][1] is s and c.log[1][2] == 'run')
    kind = c.log[0]
    c.ensures('the text of the span', kind[-1][0] == 'xml' and kind[-1][1] is c.text)
    if kind[0] == 'link':
        c.ensures('no link for blanks', not blank)
        c.ensures('a link leads to the target of a link mark', exists(0, n, lambda j: And(at(src, j)['type'] == RT.HYPERLINK.value, at(src, j)['uri'] == kind[1])))
    else: c.ensures('linked text becomes a link', Or(blank, Not(some)))


@contract('C18', 'common.docx:xml_text', n=400, bounded='regular expressions: checked on generated text')
def representable(c):
    f = c.mod('common.docx').xml_text
    pool = ['a', ' ', '\t', '\n', 'é', '漢', '\U0001F600', '\x00', '\x01', '\x0b', '\x1f', '\ud800', '\udfff', '\ufffe', '\uffff', '\ufffd', '\ue000', '\ud7ff', '<', '&']
    t = ''.join(c.choice(f'c{i}', pool) for i in range(c.choice('n', list(range(8)))))
    r = c.call(f, t)
    ok = lambda ch: ch in '\t\n\r' or 0x20 <= ord(ch) <= 0xd7ff or 0xe000 <= ord(ch) <= 0xfffd or ord(ch) >= 0x10000
    c.ensures('only characters XML allows, the others unchanged', len(r) == len(t) and all(ok(b) and (a == b or not ok(a)) for a, b in zip(t, r)))
