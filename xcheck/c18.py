"""C18: runs show the font, size, colour, weight, slant and superscript of the text"""
import os
import fitz
from . import c08
from .lib import scratch, Docx, W, R, word, sentence, convert
RULE = 'one case = one text span written to a paragraph, or one generated page; distinct = different attributes'
PARTS = ['run', 'pages', 'marked', 'unnamed', 'chars']
LOCAL = {'SimSun': '宋体', 'Sim Sun': '宋体', 'NSimSun': '新宋体', 'MicrosoftYaHei': '微软雅黑', 'Microsoft_YaHei': '微软雅黑', 'KaiTi': '楷体', 'ArialNarrow': 'Arial Narrow', 'STSong': '华文宋体', 'FangSong_GB2312': '仿宋_GB2312', 'SimHei': '黑体'}
PLAIN = ['Calibri', 'Arial', 'TimesNewRomanPSMT', 'Helvetica', 'Ko Pub Dotum', 'X', 'Cambria Math', 'Verdana']


def family(font):
    """family: without subset prefix and without what follows a dash; a comma is a blank; Chinese families by their local name"""
    n = font.split('+')[-1].split('-')[0]
    return LOCAL.get(n, n).replace(',', ' ')


def val(p, tag, default=None, attr='val'):
    e = p.find(W + tag) if p is not None else None
    return default if e is None else e.get(W + attr)


def on(p, tag):
    e = p.find(W + tag) if p is not None else None
    return e is not None and e.get(W + 'val') not in ('0', 'false', 'off')


def formats(body):
    """(character, format) of every character"""
    out = []
    for r in body.iter(W + 'r'):
        ts = r.findall(W + 't')
        if not ts: continue
        link = r.getparent() if r.getparent().tag == W + 'hyperlink' else None
        p = link.getparent().find(W + 'rPr') if link is not None and link.getparent().tag == W + 'r' else r.find(W + 'rPr')
        f = p.find(W + 'rFonts') if p is not None else None
        fonts = {f.get(W + a) for a in ('ascii', 'hAnsi', 'eastAsia')} if f is not None else {None}
        sz, w = val(p, 'sz'), val(p, 'w')
        fmt = dict(font=fonts.pop() if len(fonts) == 1 else fonts, size=float(sz) / 2 if sz else None, scale=float(w) / 100 if w else 1.0, color=(val(p, 'color') or '').lower(),
                   bold=on(p, 'b'), italic=on(p, 'i'), sup=val(p, 'vertAlign') == 'superscript', sub=val(p, 'vertAlign') == 'subscript', link=link is not None)
        for t in ts:
            for c in t.text or '': out.append((c, fmt))
    return out


def agree(x, key, got, want, **info):
    """format of a run against that of the text"""
    x.check(got['font'] == family(want['font']), key + ':font', 'a run names the font family of the text for all scripts', got=got['font'], want=want, **info)
    x.check(got['color'] == f'{want["color"]:06x}', key + ':color', 'a run shows the colour of the text', got=got['color'], want=want, **info)
    fl = want['flags']
    x.check((got['bold'], got['italic'], got['sup'], got['sub']) == (bool(fl & 16), bool(fl & 2), bool(fl & 1), False), key + ':style', 'a run shows weight, slant and superscript of the text', got=got, want=want, **info)
    s = want['size']
    if got['size'] is None: x.fail(key + ':size', 'a run has a size', got=got, want=want, **info); return
    x.check(abs(got['size'] - s) <= .2501 or (s < .5 and got['size'] == .5), key + ':size', 'the size of a run is that of the text rounded to half a point', got=got, want=want, **info)
    if s > .01: x.check(abs(got['size'] * got['scale'] - s) <= .0101 * got['size'], key + ':size', 'character scaling makes up for the rounding of the size', got=got, want=want, **info)


def run(x):
    from pdf2docx.text.TextSpan import TextSpan
    from pdf2docx.common.share import RectType
    from docx import Document
    rng = x.rng('run')
    d = Document()
    def write(raw, p):
        TextSpan(raw).make_docx(p)
    ch = lambda t: [dict(c=c, origin=(10 + 5 * i, 20), bbox=(10 + 5 * i, 10, 15 + 5 * i, 22)) for i, c in enumerate(t)]
    raw0 = dict(size=10.0, flags=0, font='Arial', color=0, bbox=(10, 10, 30, 22), chars=ch('abcd'))
    x.api(lambda: write(raw0, d.add_paragraph()))
    for k in range(700 * x.n):
        base = rng.choice(PLAIN + list(LOCAL))
        font = rng.choice(['', '', 'ABCDEE+', 'XYZABC+']) + base + rng.choice(['', '', '-Bold', '-BoldItalic', ',Light', '-Regular-X'] if base in PLAIN else ['', '-Bold'])
        t = rng.choice(['word', 'two words', ' lead', 'trail ', ' ', '  ', 'a', 'x & <y>', '"q"', 'ünï', '漢字', '1.'])
        raw = dict(size=rng.choice([12.0, 10.0, 10.5, 10.25, 10.26, 9.963, 11.04, .3, .5, .6, 1.1, 7.74, 7.75, 8.24, 24.0, 71.9, rng.uniform(.4, 40)]), flags=rng.choice([0, 1, 2, 4, 8, 16, 18, 20, 31, 3, 17, 22]),
                   font=font, color=rng.choice([0, 0xFF0000, 0xFF, 0x00FF00, 0x0A, 0x0B0C, 0xABCDEF, 0xFFFFFF, rng.randrange(1 << 24)]), bbox=(10, 10, 10 + 5 * len(t), 22), chars=ch(t))
        st = rng.choice([[], [], 'link', 'u'])
        if st == 'link': raw['style'] = [dict(type=RectType.HYPERLINK.value, color=0, uri='https://a.org/?x=1&y=<2>')]
        elif st == 'u': raw['style'] = [dict(type=RectType.UNDERLINE.value, color=raw['color'])]
        p = d.add_paragraph()
        write(raw, p)
        x.case('run', (font, raw['size'], raw['flags'], raw['color'], t), raw if k < 2 else None)
        got = formats(p._element)
        if not x.check(''.join(c for c, _ in got) == t, 'run:text', 'a run holds the text of the span', got=''.join(c for c, _ in got), want=t): continue
        agree(x, 'run', got[0][1], raw, text=t)
        x.check(got[0][1]['link'] == (st == 'link' and bool(t.strip())), 'run:link', 'exactly linked text is a link', raw=raw, got=got[0][1])


def spans_of(page):
    """characters of the page with their attributes, as PyMuPDF extracts them"""
    out = []
    for b in page.get_text('rawdict')['blocks']:
        for l in b.get('lines', []):
            for s in l['spans']:
                out += [(c['c'], {k: s[k] for k in ('font', 'size', 'color', 'flags')}) for c in s['chars']]
    return out


NAMES = ['ABCDEF+SimSun', 'Verdana', 'KaiTi', 'ArialNarrow', 'XYZABC+Calibri-Bold', 'Cambria-Light']
def pages(x):
    rng = x.rng('pages')
    with scratch() as t:
        for k in range(40 * x.n):
            if x.left() < 10: break
            doc = fitz.open(); p = doc.new_page()
            y, info = 80, []
            table = k % 4 == 3
            for i in range(rng.randint(3, 7)):
                a = 80
                for q in range(rng.randint(1, 3)):
                    f = rng.choice(['helv', 'tiro', 'cour', 'hebo', 'heit', 'hebi', 'tibo', 'tiit', 'tibi', 'cobo', 'coit'])
                    s = rng.choice([9, 10, 10.5, 11, 12, 9.963, 11.04, 10.3, 13.2])
                    c = rng.choice([(0, 0, 0), (1, 0, 0), (0, 0, 1), (.2, .4, .1), (0, .05, .04), (1, 1, 1), (.5, .5, .5)])
                    tx = word(rng, rng.randint(3, 7))
                    p.insert_text((a, y), tx, fontname=f, fontsize=s, color=c)
                    a += fitz.get_text_length(tx, f, s)
                    if rng.random() < .3:
                        z = rng.choice('12'); p.insert_text((a, y - .35 * s), z, fontname=f, fontsize=s * .6, color=c); a += fitz.get_text_length(z, f, s * .6)
                    a += rng.choice([4, 5])
                    info.append((tx, f, s, c))
                if table:
                    for yy in (y - 22, y + 10): p.draw_line((70, yy), (500, yy))
                    for xx in (70, 500): p.draw_line((xx, y - 22), (xx, y + 10))
                y += rng.choice([32, 32, 60]) if not table else 32
            # rename some fonts
            for f in p.get_fonts():
                if rng.random() < .25: doc.xref_set_key(f[0], 'BaseFont', '/' + rng.choice(NAMES))
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            src = fitz.open(pdf)
            want = [c for c in spans_of(src[0]) if c[0].strip()]; src.close()
            convert(pdf, os.path.join(t, 'a.docx'))
            got = [c for c in formats(Docx(os.path.join(t, 'a.docx')).body) if c[0].strip()]
            x.case('pages', k, info[:2])
            # every line keeps to itself: compare as multisets of (character, family, colour, flags), and in order if the text order is the same
            if ''.join(c for c, _ in got) != ''.join(c for c, _ in want):
                if sorted(c for c, _ in got) != sorted(c for c, _ in want): x.fail('pages:text', 'the text of the page is written', got=''.join(c for c, _ in got), want=''.join(c for c, _ in want))
                key = lambda c, f, fam: (c, fam, f['color'] if isinstance(f['color'], str) else f'{f["color"]:06x}')
                x.check(sorted(map(str, [key(c, f, f['font']) for c, f in got])) == sorted(map(str, [key(c, f, family(f['font'])) for c, f in want])), 'pages:multiset', 'font and colour of all characters', lines=info)
                continue
            n0 = len(x.failures)
            for (c, g), (_, w) in zip(got, want):
                agree(x, 'pages', g, w, char=c, lines=info)
                if len(x.failures) > n0: break


def marked(x):
    """underlines, strikes, shadings and links over text of any colour (the generator of C08)"""
    c08.pages(x)


def unnamed(x):
    """text in a font without a name"""
    rng = x.rng('unnamed')
    with scratch() as t:
        for k in range(6 * x.n):
            if x.left() < 8: break
            doc = fitz.open(); p = doc.new_page(width=400, height=400)
            p.insert_text((72, 60), 'Plain first line of the page', fontsize=11)
            p.insert_text((72, 160), 'Plain last line of the page', fontsize=11)
            wd, n, size = rng.choice([750, 400, 300]), rng.randint(3, 9), rng.choice([8, 10, 12])
            g = doc.get_new_xref(); doc.update_object(g, '<<>>'); doc.update_stream(g, f'{wd} 0 0 0 {wd - 50} 700 d1 0 0 {wd - 50} 700 re f'.encode(), new=True)
            f = doc.get_new_xref()
            doc.update_object(f, f'<</Type/Font/Subtype/Type3/FontBBox[0 0 750 750]/FontMatrix[.001 0 0 .001 0 0]/CharProcs<</sq {g} 0 R>>/Encoding<</Type/Encoding/Differences[97/sq/sq/sq]>>/FirstChar 97/LastChar 99/Widths[{wd} {wd} {wd}]/Resources<<>>>>')
            r = doc.xref_get_key(p.xref, 'Resources')
            if r[0] == 'xref': doc.xref_set_key(int(r[1].split()[0]), 'Font/T3', f'{f} 0 R')
            else: doc.xref_set_key(p.xref, 'Resources/Font/T3', f'{f} 0 R')
            txt = ''.join(rng.choice('abc') for _ in range(n))
            xr = p.get_contents()[0]
            doc.update_stream(xr, doc.xref_stream(xr) + f' BT /T3 {size} Tf 72 290 Td ({txt}) Tj ET'.encode())
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            src = fitz.open(pdf); names = {f['font'] for _, f in spans_of(src[0])}; src.close()
            if not any('UNNAMED' in n.upper() for n in names): continue
            convert(pdf, os.path.join(t, 'a.docx'))
            got = formats(Docx(os.path.join(t, 'a.docx')).body)
            x.case('unnamed', (wd, n, size), dict(text=txt, width=wd, size=size))
            tx = ''.join(c for c, _ in got)
            if not x.check(txt in tx and 'Plain first' in tx and 'Plain last' in tx, 'unnamed:text', 'a page with an unnamed font keeps its text', got=tx, text=txt): continue
            i = tx.index(txt); fm = got[i][1]
            x.check(fm['font'] and 'unnamed' not in fm['font'].lower(), 'unnamed:font', 'text without font name gets a real font', got=fm)
            room = n * wd / 1000 * size
            x.check(fitz.Font('helv').text_length(txt, fm['size'] * fm['scale']) <= room * 1.02 + .1 and fm['size'] <= size + .25, 'unnamed:size', 'and a size with which it fits its place', got=fm, room=room, size=size)


def chars(x):
    """characters that no docx can hold"""
    rng = x.rng('chars')
    with scratch() as t:
        for bad in ['FFFE', 'D800', 'DFFF', 'FFFF', '0001'][:5]:
            if x.left() < 8: break
            doc = fitz.open(); p = doc.new_page(width=300, height=400)
            p.insert_text((72, 100), 'ABCDEFG second', fontname='helv')
            fx = p.get_fonts()[0][0]
            cm = f'/CIDInit /ProcSet findresource begin 12 dict begin begincmap /CMapName /X def /CMapType 2 def 1 begincodespacerange <00> <FF> endcodespacerange 1 beginbfchar <42> <{bad}> endbfchar 2 beginbfrange <43> <7A> <0043> <20> <41> <0020> endbfrange endcmap end end'
            n = doc.get_new_xref(); doc.update_object(n, '<<>>'); doc.update_stream(n, cm.encode(), new=True); doc.xref_set_key(fx, 'ToUnicode', f'{n} 0 R')
            link = rng.random() < .5
            p.insert_link(dict(kind=2, uri='http://a.org/\x02x' if link else 'http://a.org/x', **{'from': fitz.Rect(100, 85, 180, 105)}))
            doc.new_page().insert_text((72, 100), 'other page')
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            x.case('chars', (bad, link), bad)
            try:
                convert(pdf, os.path.join(t, 'a.docx'))
                tx = Docx(os.path.join(t, 'a.docx')).texts()
            except Exception as e:
                x.fail('chars', 'a character that cannot be represented does not prevent the rest from being written', character=bad, error=repr(e)); continue
            x.check(len(tx) == 2 and 'CDEFG second' in tx[0] and tx[0].strip().startswith('A') and 'other page' in tx[1], 'chars', 'a character that cannot be represented does not prevent the rest from being written', character=bad, got=tx)
