"""C22: pages with /Rotate are converted as displayed"""
import os
from .lib import *
from .pdfs import *
RULE = 'one case = one page drawn upright and with /Rotate 90, 180 or 270 such that both are displayed the same'
PARTS = ['same_as_displayed', 'links']
WPS = '{http://schemas.microsoft.com/office/word/2010/wordprocessingShape}'


def formats(d, link=True):
    """[(character, formatting)] of the whole document without blanks"""
    out = []
    for r in d.body.iter(W + 'r'):
        pr = r.find(W + 'rPr')
        f = {}
        for e in (pr if pr is not None else ()):
            n = e.tag.split('}')[1]
            if n in ('sz', 'color', 'u', 'highlight', 'shd', 'strike', 'b', 'i'): f[n] = tuple(sorted((k.split('}')[1], v) for k, v in e.attrib.items()))
            if n == 'rFonts': f[n] = e.get(W + 'ascii')
        p = r.getparent()
        if link and p.tag == W + 'hyperlink': f['link'] = d.rels.get(p.get(R + 'id'))
        for c in ''.join(text_of(r)):
            if c.strip(): out.append((c, tuple(sorted(f.items()))))
    return out


def pictures(d):
    """[(width, height, content)] of pictures"""
    out = []
    for e in d.body.iter(WP + 'inline', WP + 'anchor'):
        x = e.find(WP + 'extent')
        b = next(e.iter(A + 'blip'), None)
        out.append((int(x.get('cx')) / 12700, int(x.get('cy')) / 12700, d.media.get('word/' + d.rels.get(b.get(R + 'embed'), '')) if b is not None else None))
    return sorted(out, key=lambda t: (round(t[0]), round(t[1])))


def pixels(d):
    import zipfile


def tables(d):
    """text, columns, borders and shading of the ruled tables"""
    out = []
    for t in d.body.iter(W + 'tbl'):
        if not any(e.get(W + 'val') == 'single' and e.get(W + 'sz') not in (None, '0') for b in t.iter(W + 'tcBorders') for e in b): continue
        if any(x is not t for x in t.iter(W + 'tbl')): continue       # the inner tables only
        rows = []
        for tr in t.findall(W + 'tr'):
            rows.append([(''.join(text_of(tc)).strip(), tuple(s.get(W + 'fill') for s in tc.iter(W + 'shd')), sorted((b.tag.split('}')[1], b.get(W + 'color')) for b in tc.findall(f'{W}tcPr/{W}tcBorders/*')))
                         for tc in tr.findall(W + 'tc')])
        out.append(([int(g.get(W + 'w')) for g in t.findall(f'{W}tblGrid/{W}gridCol')], rows))
    return out


def media(path):
    """content hash -> picture"""
    import zipfile
    out = {}
    with zipfile.ZipFile(path) as z:
        for n in z.namelist():
            if n.startswith('word/media/'): b = z.read(n); out[hashlib.sha256(b).hexdigest()] = b
    return out


def same_picture(a, b):
    p, q = fitz.Pixmap(a), fitz.Pixmap(b)
    return (p.width, p.height, p.n) == (q.width, q.height, q.n) and p.samples == q.samples


def content(page, rng):
    """single-line paragraphs with marks, tables, pictures and drawings, well apart"""
    y, kinds = 60, []
    while y < page.rect.height - 200:
        k = rng.choice('pppptthqiiv')
        kinds.append(k)
        if k == 'p':
            font, size, col = rng.choice(FONTS), rng.choice([8, 10, 12, 16]), rng.choice(COLORS)
            x0 = rng.choice([60, 72, 100])
            words = [word(rng) for _ in range(rng.randint(2, 5))]
            page.insert_text((x0, y + 20), ' '.join(words), fontname=font, fontsize=size, color=col)
            i = rng.randrange(len(words))
            a = x0 + fitz.get_text_length(' '.join(words[:i]) + (' ' if i else ''), font, size)
            b = a + fitz.get_text_length(words[i], font, size)
            m = rng.choice('ushln')
            kinds[-1] += m
            if m == 'u': page.draw_line((a, y + 21.5), (b, y + 21.5), color=rng.choice(COLORS), width=.7)
            if m == 's': page.draw_line((a, y + 20 - size * .28), (b, y + 20 - size * .28), color=rng.choice(COLORS), width=.7)
            if m == 'h': rng.choice([type(page).draw_rect, four_lines])(page, (a, y + 20 - size * .75, b, y + 20 + size * .2), color=None, fill=rng.choice(FILLS))
            if m == 'l': page.insert_link(dict(kind=2, uri=f'https://{word(rng)}.org', **{'from': fitz.Rect(a, y + 20 - size, b, y + 22)}))
            y += 60
        elif k == 't': y = table(page, rng, y + 20) + 30
        elif k == 'h': y = shaded_table(page, rng, y + 20) + 30
        elif k == 'q':
            cols = rng.sample(FILLS, 2)
            for r in range(2):
                for c in range(2):
                    four_lines(page, (72 + 120 * c, y + 20 + 30 * r, 192 + 120 * c, y + 50 + 30 * r), color=rng.choice([None, (0, 0, 0)]), fill=cols[(r + c) % 2], width=1)
                    page.insert_text((80 + 120 * c, y + 38 + 30 * r), word(rng, 5), fontsize=9)
            y += 120
        elif k == 'i': y = image(page, rng, y + 20) + 30
        elif k == 'v': y = vector(page, rng, y + 20) + 30
    return ' '.join(kinds)


def same_as_displayed(x):
    rng = x.rng('turned')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        import random
        for k in range(36 * x.n):
            if x.left() < 0: break
            w, h = rng.choice([595, 612, 600.5]), rng.choice([842, 792, 700])
            deg, seed = rng.choice([90, 180, 270]), rng.random()
            for d, n in ((0, 'a'), (deg, 'b')):
                doc = fitz.open(); kinds = content(Turned(doc, w, h, d), random.Random(seed)); doc.save(f(n + '.pdf')); doc.close()
                moved = n == 'b' and bool(shift_some(f('b.pdf'), rng, .3))
                convert(f(n + '.pdf'), f(n + '.docx'))
            a, b = Docx(f('a.docx')), Docx(f('b.docx'))
            info = dict(rotation=deg, size=(w, h), kinds=kinds, content=seed, moved_origin=moved)
            x.case('page', (deg, seed), info)
            sz = [[(float(s.find(W + 'pgSz').get(W + 'w')), float(s.find(W + 'pgSz').get(W + 'h'))) for s, _ in d.sections()] for d in (a, b)]
            x.check(len(sz[0]) == len(sz[1]) and all(abs(p - q) < 1.1 for u, v in zip(*sz) for p, q in zip(u, v)), 'size', 'page size as displayed', **info)
            p, q = sorted(formats(a)), sorted(formats(b))
            x.check(''.join(c for c, _ in p) == ''.join(c for c, _ in q), 'text', 'the same text', **info)
            diff = [(u, v) for u, v in zip(p, q) if u != v]
            x.check(not diff, 'format', 'text has the same formatting', first=diff[:2], count=len(diff), **info)
            p, q = pictures(a), pictures(b)
            ok = len(p) == len(q) and all(abs(u[0] - v[0]) <= 2.1 and abs(u[1] - v[1]) <= 2.1 for u, v in zip(p, q))
            x.check(ok, 'pictures', 'the same pictures of the same size', upright=[u[:2] for u in p], turned=[v[:2] for v in q], **info)
            if 'v' not in kinds and ok:
                m, n = media(f('a.docx')), media(f('b.docx'))
                x.check(all(same_picture(m[u[2]], n[v[2]]) for u, v in zip(p, q)), 'pixels', 'the same pictures', **info)
            p, q = tables(a), tables(b)
            x.check([t[1] for t in p] == [t[1] for t in q], 'tables', 'the same tables', upright=p, turned=q, **info)
            x.check(all(len(u[0]) == len(v[0]) and all(abs(c - d) <= 6 for c, d in zip(u[0], v[0])) for u, v in zip(p, q)), 'columns', 'the same column widths', upright=[t[0] for t in p], turned=[t[0] for t in q], **info)


def links(x):
    """a link area turns with the page"""
    rng = x.rng('links')
    with scratch() as tmp:
        pdf, out = os.path.join(tmp, 'l.pdf'), os.path.join(tmp, 'l.docx')
        for deg in (0, 90, 180, 270):
            for k in range(2 * x.n):
                doc = fitz.open(); page = Turned(doc, 500 + 20 * k, 700, deg)
                xx, y = rng.uniform(60, 150), rng.uniform(80, 300)
                page.insert_text((xx, y), 'LINK other words', fontname='cour', fontsize=10)
                page.insert_link(dict(kind=2, uri='https://example.org/a', **{'from': fitz.Rect(xx, y - 9, xx + 24, y + 3)}))
                page.insert_text((xx, y + 200), 'far away')
                doc.save(pdf); doc.close()
                shift_some(pdf, rng, .3)
                convert(pdf, out)
                x.case('link', (deg, k))
                d = Docx(out)
                got = [(''.join(text_of(e)).strip(), d.rels.get(e.get(R + 'id'))) for e in d.body.iter(W + 'hyperlink')]
                x.check(got == [('LINK', 'https://example.org/a')], 'links', 'a link area turns with the page', rotation=deg, got=got)
