"""C14: colours"""
import re, os
from .lib import *
RULE = 'one case = one colour; distinct = different components / value / place it is written'
PARTS = ['pack', 'unpack', 'written', 'end_to_end']


def want(comp):
    if len(comp) == 4:
        c, m, y, k = comp
        rgb = [(1 - v) * (1 - k) for v in (c, m, y)]
    elif len(comp) == 1: rgb = [comp[0]] * 3
    else: rgb = list(comp)
    return rgb


def close(value, rgb, slack=0):
    """each byte is the component truncated (up to float noise)"""
    if not isinstance(value, int) or not 0 <= value < 2 ** 24: return False
    for v, s in zip(rgb, (16, 8, 0)):
        b = (value >> s) & 255
        if not (int(v * 255 - 1e-6) - slack <= b <= int(v * 255 + 1e-6) + slack): return False
    return True


def pack(x):
    from pdf2docx.common.share import rgb_value
    rng = x.rng('pack')
    x.api(lambda: rgb_value([0, 0, 0]))
    for k in range(4000 * x.n):
        n = rng.choice([1, 3, 3, 4])
        comp = [rng.choice([0, 1, 0.0, 1.0, .5, .2, rng.random(), rng.randint(0, 255) / 255, rng.randint(0, 255) / 255, 16 / 255, 15 / 255, 1 / 255]) for _ in range(n)]
        if rng.random() < .3: comp = tuple(comp)
        v = rgb_value(comp)
        x.case('pack', tuple(comp), comp)
        x.check(close(v, want(comp)), 'pack', 'gray/RGB/CMYK components become the 24-bit colour', components=comp, value=v, expected=[int(c * 255) for c in want(comp)])


def unpack(x):
    """all 2^24 values in thorough runs, a sample and all values near powers of two otherwise"""
    from pdf2docx.common.share import rgb_component, rgb_value
    rng = x.rng('unpack')
    x.api(lambda: rgb_component(0xffffff))
    vals = set(range(0, 700)) | {2 ** i + d for i in range(24) for d in (-2, -1, 0, 1, 2)} | {rng.randrange(2 ** 24) for _ in range(20000)} | {(r << 16) | (g << 8) | b for r in (0, 1, 15, 16, 255) for g in (0, 1, 15, 16, 255) for b in (0, 1, 15, 16, 255)}
    if x.tier == 'thorough': vals = range(2 ** 24)
    n = 0
    for v in vals:
        if not 0 <= v < 2 ** 24: continue
        n += 1
        c = rgb_component(v)
        if list(c) != [v >> 16, (v >> 8) & 255, v & 255]:
            x.fail('unpack', 'the components of a colour value', value=v, got=list(c)); break
    x.evaluations += n; x.parts['unpack'] = n; x.keys.add(('unpack', n))
    for k in range(3000):
        rgb = [rng.randint(0, 255) for _ in range(3)]
        v = rgb_value([c / 255 for c in rgb])
        x.case('round trip', tuple(rgb))
        c = rgb_component(v)
        x.check(all(0 <= p - q <= 1 for p, q in zip(rgb, c)), 'unpack', 'components -> value -> components', components=rgb, got=list(c))


def written(x):
    """six hex digits wherever a colour is written"""
    from docx import Document
    from pdf2docx.common import docx as D
    rng = x.rng('written')
    doc = Document()
    t = doc.add_table(1, 1)
    p = doc.add_paragraph()
    HL = {0xff0000: 'red', 0x00ff00: 'green', 0x0000ff: 'blue', 0xffff00: 'yellow', 0xff00ff: 'magenta', 0x00ffff: 'cyan'}
    x.api(lambda: (D.set_cell_shading(t.cell(0, 0), 5), D.set_char_shading(p.add_run('a'), 5), D.set_char_underline(p.add_run('a'), 5)))
    vals = [0, 1, 15, 16, 255, 256, 4095, 4096, 65535, 65536, 0xffffff, 0x00ff00, 0x0000ff, 0xff0000, 0x00ffff, 0xff00ff, 0xffff00] + [rng.randrange(2 ** 24) >> rng.choice([0, 0, 4, 8, 12, 16]) for _ in range(250 * x.n)]
    for v in vals:
        x.case('written', v)
        h = f'{v:06x}'
        doc = Document()
        c, p = doc.add_table(1, 1).cell(0, 0), doc.add_paragraph()
        D.set_cell_shading(c, v)
        x.check([e.get(W + 'fill').lower() for e in c._tc.iter(W + 'shd')] == [h], 'written', 'cell shading is the six-digit hex colour', value=v)
        r = p.add_run('a'); D.set_char_underline(r, v)
        x.check([e.get(W + 'color').lower() for e in r._r.iter(W + 'u')] == [h], 'written', 'underline colour is the six-digit hex colour', value=v)
        r = p.add_run('a'); D.set_char_shading(r, v)
        fills = [e.get(W + 'fill').lower() for e in r._r.iter(W + 'shd')]
        hl = [e.get(W + 'val') for e in r._r.iter(W + 'highlight')]
        x.check(fills == [h] and not hl or v in HL and not fills and hl == [HL[v]], 'written', 'text shading is the colour', value=v, fill=fills, highlight=hl)


def end_to_end(x):
    """text, shading, border colours of a converted page"""
    rng = x.rng('e2e')
    with scratch() as tmp:
        for k in range(25 * x.n):
            pdf, d = os.path.join(tmp, 'c.pdf'), os.path.join(tmp, 'c.docx')
            doc = fitz.open(); page = doc.new_page()
            col = lambda ns=(3,): [rng.choice([0, 1, .2, .5, rng.randint(0, 255) / 255, 5 / 255]) for _ in range(rng.choice(ns))]
            tc, fc, bc = col((3,)), col(), col()      # gray and CMYK go through a colour profile of the PDF library
            if all(v > .95 for v in want(fc)): fc = [.5, .5, .5]
            page.draw_rect((72, 200, 272, 240), color=None, fill=fc)
            for a, b in (((72, 200), (272, 200)), ((72, 240), (272, 240)), ((72, 200), (72, 240)), ((272, 200), (272, 240)), ((172, 200), (172, 240))): page.draw_line(a, b, color=bc, width=1)
            page.insert_text((72, 100), 'MARK text', color=tc, fontsize=12)
            page.insert_text((80, 220), 'CELL', fontsize=10)
            doc.save(pdf); doc.close()
            convert(pdf, d)
            D = Docx(d)
            info = dict(text=tc, fill=fc, border=bc)
            x.case('end to end', tuple(tc + fc + bc), info)
            runs = [r for r in D.body.iter(W + 'r') if 'MARK' in ''.join(text_of(r))]
            cs = {c.get(W + 'val') for r in runs for c in r.iter(W + 'color')}
            x.check(len(cs) == 1 and all(len(c) == 6 and close(int(c, 16), want(tc), 1) for c in cs), 'e2e', 'text colour', got=sorted(cs), **info)
            fs = {s.get(W + 'fill') for tcp in D.body.iter(W + 'tcPr') for s in tcp.iter(W + 'shd')}
            x.check(len(fs) == 1 and all(len(c) == 6 and close(int(c, 16), want(fc), 1) for c in fs), 'e2e', 'cell shading', got=sorted(fs), **info)
            bs = {e.get(W + 'color').strip('#') for b in D.body.iter(W + 'tcBorders') for e in b}
            x.check(len(bs) == 1 and all(len(c) == 6 and close(int(c, 16), want(bc), 1) for c in bs), 'e2e', 'border colour', got=sorted(bs), **info)
