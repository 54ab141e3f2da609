"""C08: marks (lines, areas, links) style exactly the characters they cover"""
import os
import fitz
from . import pdfs
from .pdfs import Turned, shift
from .lib import scratch, Docx, W, R, word, sentence, convert
RULE = 'one case = one span with one or several marks, or one generated page; distinct = different geometry'
PARTS = ['split', 'block', 'strip', 'pages', 'many']
WHITE = 0xFFFFFF


def span(x0, y0, w, h, text, horizontal=True, **kw):
    """a span of characters of the given widths"""
    chars, a = [], x0
    for c, d in zip(text, w):
        b = (a, y0, a + d, y0 + h)
        if not horizontal: b = (y0, -(a + d), y0 + h, -a)
        chars.append(dict(c=c, origin=(b[0], b[3]), bbox=b)); a += d
    bb = (x0, y0, a, y0 + h) if horizontal else (y0, -a, y0 + h, -x0)
    return dict(size=10.0, flags=0, font='Arial', color=0, bbox=bb, chars=chars, **kw)


def shape(kind, bbox, color=0xFF0000):
    from pdf2docx.shape.Shape import Fill, Hyperlink
    from pdf2docx.common.share import RectType
    if kind == 'link': return Hyperlink(dict(bbox=bbox, type=RectType.HYPERLINK.value, uri='https://a.org/x'))
    f = Fill(dict(bbox=bbox, color=color))
    if kind == 'border': f.type = RectType.BORDER
    if kind == 'shading': f.type = RectType.SHADING
    return f


def cover(cb, rb, i):
    """share of the extent along axis i of the box cb that is covered by rb; 0 if they have no common point"""
    for j in (0, 1):
        if min(cb[j + 2], rb[j + 2]) < max(cb[j], rb[j]): return 0
    e = cb[i + 2] - cb[i]
    return (min(cb[i + 2], rb[i + 2]) - max(cb[i], rb[i])) / e if e > 0 else None


def kind_of(sb, rb, color, i):
    """underline, strike or highlight by height and position across the text; None: none; '?': on a limit"""
    h, hr = sb[i + 2] - sb[i], rb[i + 2] - rb[i]
    d = abs(sb[i + 2] - rb[i])
    for v, l in ((hr, .5 * h), (d, .25 * h), (d, .35 * h), (d, .75 * h)):
        if abs(v - l) < .15: return '?'
    if hr >= .5 * h:
        if color == WHITE: return None
        return 'area'
    if d <= .25 * h: return 'underline'
    if .35 * h < d < .75 * h: return 'strike'
    return None


def styles(s):
    from pdf2docx.common.share import RectType
    n = {RectType.HIGHLIGHT.value: 'area', RectType.UNDERLINE.value: 'underline', RectType.STRIKE.value: 'strike', RectType.HYPERLINK.value: 'link'}
    return [(n.get(t['type'], t['type']), t['color'], t.get('uri')) for t in s.style]


def split(x):
    from pdf2docx.text.TextSpan import TextSpan
    rng = x.rng('split')
    x.api(lambda: TextSpan(span(0, 0, [5, 5], 10, 'ab')).split(shape('fill', (0, 8, 5, 9)), True))
    for k in range(4000 * x.n):
        hor = rng.random() < .6
        text = ''.join(rng.choice('abc de') for _ in range(rng.randint(1, 9)))
        w = [rng.choice([5, 5, 5, 3, 7.5, 2, 0] if k % 3 == 0 else [5, 5, 3, 7.5, 2]) for _ in text]
        x0, y0, h = rng.choice([0, 72, 30.5]), rng.choice([100, 50.2]), rng.choice([10, 12.4, 20])
        raw = span(x0, y0, w, h, text, hor, style=[dict(type=7, color=3, uri='u')] if rng.random() < .2 else [])
        s = TextSpan(raw)
        sb = tuple(s.bbox)
        i = 0 if hor else 1
        tot = sum(w)
        a, b = sorted([rng.uniform(-10, tot + 10), rng.uniform(-10, tot + 10)])
        if rng.random() < .3: a, b = sorted([rng.choice([0, tot, sum(w[:2])]), rng.choice([tot, sum(w[:3]), tot + 4])])
        ya = rng.choice([0, .1, .3, .5, .55, .8, .85, .9, -.1]) * h; yb = ya + rng.choice([.05, .08, .3, .6, 1, 1.2]) * h
        # along the text x0+a..x0+b, across the text from ya to yb below its top
        rb = (x0 + a, y0 + ya, x0 + b, y0 + yb) if hor else (y0 + ya, -(x0 + b), y0 + yb, -(x0 + a))
        color = rng.choice([0xFF0000, 0x00FF12, 0, WHITE])
        kind = rng.choice(['fill', 'fill', 'fill', 'link', 'border', 'shading'])
        r = shape(kind, rb, color)
        rb = tuple(r.bbox)
        cov = [cover(tuple(c.bbox), rb, i) for c in s.chars]
        if any(c is not None and abs(c - .5) < .03 for c in cov): continue
        if any(abs(min(sb[j + 2], rb[j + 2]) - max(sb[j], rb[j])) < .01 for j in (0, 1)): continue
        hit = [n for n, c in enumerate(cov) if c and c > .5]
        want = list(range(hit[0], hit[-1] + 1)) if hit else []
        before = styles(s); attrs = (s.size, s.font, s.color, s.flags)
        out = s.split(r, hor)
        x.case('split', (hor, text, tuple(w), rb, kind, color), dict(text=text, widths=w, mark=rb, kind=kind))
        info = dict(text=text, widths=w, horizontal=hor, span=sb, mark=rb, mark_kind=kind, color=color, got=[(p.text, styles(p)) for p in out])
        x.check(''.join(p.text for p in out) == text, 'split:chars', 'the parts of a split span are the span', **info)
        x.check(all((p.size, p.font, p.color, p.flags) == attrs for p in out), 'split:attrs', 'the parts keep font, size, colour and flags', **info)
        per = [st for p in out for st in [styles(p)] * len(p.chars)]
        if len(per) != len(text): continue
        if kind == 'link': new = ('link', 0, 'https://a.org/x')
        elif kind in ('border', 'shading'): new = None
        else:
            t = kind_of(sb, rb, color, 1 - i)
            if t == '?': continue
            if t == 'area':
                # the part between the first and the last covered character, against the mark
                if not want: continue
                q = [max(sb[0], rb[0]), max(sb[1], rb[1]), min(sb[2], rb[2]), min(sb[3], rb[3])]
                ov = abs(q[3 - i] - q[1 - i]); m = min(sb[3 - i] - sb[1 - i], rb[3 - i] - rb[1 - i])
                al = (q[i + 2] - q[i]) / (rb[i + 2] - rb[i])
                small = min((sb[3 - i] - sb[1 - i]) * (q[i + 2] - q[i]), (rb[2] - rb[0]) * (rb[3] - rb[1]))
                share = ov * (q[i + 2] - q[i]) / small if small else 0
                if abs(share - .75) < .05: continue
                if share < .75: t = None
            new = t and (t, color, None)
        exp = [before + ([new] if new and n in want else []) for n in range(len(text))]
        x.check(all(a == b for a, b, c in zip(per, exp, cov) if c is not None), 'split:style', 'a mark styles exactly the characters of which it covers more than half', expected=exp, per=per, covered=cov, **info)


def block(x):
    """several marks over a text block of several lines"""
    from pdf2docx.text.TextBlock import TextBlock
    rng = x.rng('block')
    def mk(lines, hor=True): return TextBlock(dict(type=0, lines=[dict(wmode=0, dir=(1.0, 0.0) if hor else (0.0, -1.0), spans=sp) for sp in lines]))
    x.api(lambda: mk([[span(0, 0, [5, 5], 10, 'ab')]]).parse_text_format([shape('fill', (0, 8, 5, 9))]))
    for k in range(500 * x.n):
        lines, marks, at = [], [], []
        hor = rng.random() < .6
        stairs = rng.random() < .4       # pieces of one row at different heights, the first ones lower
        nl, a = rng.randint(1, 4), 50
        for r in range(nl):
            sp, y = [], 30 * r
            if stairs: y, a = 18 * (nl - r), a + 12
            else: a = 50 + rng.choice([0, 0, 40])
            at.append((a, y))
            for _ in range(rng.randint(1, 3)):
                t = word(rng, rng.randint(1, 7))
                sp.append(span(a, y, [6] * len(t), 10, t, hor)); a += 6 * len(t)
            lines.append(sp)
        used = set()
        for m in range(rng.randint(1, 4)):
            r = rng.randrange(len(lines))
            n = sum(len(s['chars']) for s in lines[r])
            i, j = sorted([rng.randint(0, n), rng.randint(0, n)])
            t = rng.choice(['underline', 'strike', 'link', 'area'])
            if i == j or (r, t) in used: continue
            used.add((r, t))
            y0, y1 = dict(underline=(8.5, 9), strike=(5, 5.5), link=(-1, 10.5), area=(.5, 9.8))[t]
            bb = (at[r][0] + 6 * i + rng.choice([0, 1, -1]), at[r][1] + y0, at[r][0] + 6 * j + rng.choice([0, 1, -1]), at[r][1] + y1)
            if bb[2] - bb[0] < 4: continue
            if not hor: bb = (bb[1], -bb[2], bb[3], -bb[0])
            marks.append((r, i, j, t, bb))
        if rng.random() < .5 and not stairs:      # over several rows: a link or an area, from one place to another
            r, r2 = sorted([rng.randrange(nl), rng.randrange(nl)])
            u, v = sorted([rng.randint(0, 12), rng.randint(0, 24)])
            t = rng.choice(['link', 'link', 'area'])
            if v - u >= 2 and not any(t == q[1] and r <= q[0] <= r2 for q in used):
                bb = (50 + 6 * u + rng.choice([0, 1, -1]), at[r][1] + .3, 50 + 6 * v + rng.choice([0, 1, -1]), at[r2][1] + 9.8)
                tall = []
                for q in range(r, r2 + 1):
                    n = sum(len(s['chars']) for s in lines[q]); d = round((at[q][0] - 50) / 6, 6)
                    # characters of which more than half is covered
                    on = [c for c in range(n) if (min(at[q][0] + 6 * c + 6, bb[2]) - max(at[q][0] + 6 * c, bb[0])) / 6 > .5]
                    if on and t == 'area' and len(on) * 6 * 9 < .85 * min((bb[2] - bb[0]) * (bb[3] - bb[1]), len(on) * 60): tall = None; break
                    if on: tall.append((q, on[0], on[-1] + 1, t, None))
                if tall:
                    bb2 = bb if hor else (bb[1], -bb[2], bb[3], -bb[0])
                    marks += tall[:-1] + [tall[-1][:4] + (bb2,)]
        if not marks: continue
        b = mk(lines, hor)
        b.parse_text_format([shape('link' if t == 'link' else 'fill', bb, 0x00AA11) for _, _, _, t, bb in marks if bb])
        x.case('block', (len(lines), hor, tuple(marks)))
        for r, (l, sp) in enumerate(zip(b.lines, lines)):
            text = ''.join(c['c'] for s in sp for c in s['chars'])
            per = [sorted(st[0] for st in styles(p)) for p in l.spans for _ in p.chars]
            exp = [sorted(t for rr, i, j, t, _ in marks if rr == r and i <= n < j) for n in range(len(text))]
            info = dict(lines=[''.join(c['c'] for s in q for c in s['chars']) for q in lines], marks=marks, line=r, horizontal=hor, at=at)
            x.check(''.join(p.text for p in l.spans) == text, 'block:chars', 'styling keeps the characters and their order', got=[p.text for p in l.spans], **info)
            x.check(per == exp, 'block:style', 'every mark styles exactly the characters it covers, on its own line, next to other styles', expected=exp, got=per, **info)


def strip(x):
    """only redundant blanks at the ends go, one remains"""
    from pdf2docx.text.Line import Line
    from pdf2docx.text.TextBlock import TextBlock
    rng = x.rng('strip')
    def mk(texts):
        a, sp = 10, []
        for t in texts:
            sp.append(span(a, 0, [5] * len(t), 10, t)); a += 5 * len(t)
        return TextBlock(dict(type=0, lines=[dict(wmode=0, dir=(1.0, 0.0), spans=sp)]))
    x.api(lambda: mk(['a']).strip())
    for k in range(1500 * x.n):
        texts = [' ' * rng.randint(0, 4) + ''.join(rng.choice('ab  ') for _ in range(rng.randint(1, 5))) + ' ' * rng.randint(0, 4) for _ in range(rng.randint(1, 3))]
        b = mk(texts)
        x.case('strip', tuple(texts), texts)
        b.strip()
        got = ''.join(s.text for l in b.lines for s in l.spans)
        full = ''.join(texts)
        body = full.strip(' ')
        x.check(got.strip(' ') == body, 'strip', 'removing redundant blanks keeps everything but blanks at the ends', texts=texts, got=got)
        if body:
            lead, tail = len(got) - len(got.lstrip(' ')), len(got) - len(got.rstrip(' '))
            wl, wt = len(full) - len(full.lstrip(' ')), len(full) - len(full.rstrip(' '))
            x.check((lead > 0) == (wl > 0) and (tail > 0) == (wt > 0) and lead <= wl and tail <= wt, 'strip', 'a blank remains where there were blanks, and none is added', texts=texts, got=got)
            if len(texts[0].strip(' ')) : x.check(lead == min(wl, 1), 'strip', 'at most one leading blank remains', texts=texts, got=got)
            if len(texts[-1].strip(' ')): x.check(tail == min(wt, 1), 'strip', 'at most one trailing blank remains', texts=texts, got=got)
            x.check(abs(b.bbox.x0 - (10 + 5 * (wl - lead))) < .2 and abs(b.bbox.x1 - (10 + 5 * (len(full) - wt + tail))) < .2, 'strip', 'the box of a stripped paragraph covers its characters', texts=texts, bbox=tuple(b.bbox))
            for l in b.lines:
                x.check(abs(l.bbox.x0 - (10 + 5 * (wl - lead))) < .2 and abs(l.bbox.x1 - (10 + 5 * (len(full) - wt + tail))) < .2, 'strip', 'the box of a stripped line covers its characters', texts=texts, bbox=tuple(l.bbox))


HL = dict(red=0xFF0000, green=0x00FF00, blue=0x0000FF, yellow=0xFFFF00, magenta=0xFF00FF, cyan=0x00FFFF)
def run_styles(d):
    """characters with their styles, from the docx"""
    out = []
    for r in d.body.iter(W + 'r'):
        ts = [t for t in r.findall(W + 't')]
        if not ts: continue
        st = set()
        link = r.getparent() if r.getparent().tag == W + 'hyperlink' else None
        p = r.find(W + 'rPr')
        outer = link.getparent() if link is not None and link.getparent().tag == W + 'r' else None
        for q in [p] + ([outer.find(W + 'rPr')] if outer is not None else []):
            if q is None: continue
            u = q.find(W + 'u')
            if u is not None and u.get(W + 'val') != 'none': st.add(('underline', int(u.get(W + 'color'), 16) if u.get(W + 'color') else None))
            s = q.find(W + 'strike')
            if s is not None and s.get(W + 'val') not in ('0', 'false'): st.add(('strike', None))
            h = q.find(W + 'highlight')
            if h is not None: st.add(('area', HL.get(h.get(W + 'val'), h.get(W + 'val'))))
            h = q.find(W + 'shd')
            if h is not None: st.add(('area', int(h.get(W + 'fill'), 16)))
        if link is not None: st.add(('link', d.rels.get(link.get(R + 'id'))))
        for t in ts:
            for c in t.text or '': out.append((c, frozenset(st)))
    return out


def pages(x):
    """end to end: one mark per line of a page"""
    rng = x.rng('pages')
    with scratch() as t:
        for k in range(40 * x.n):
            if x.left() < 12: break
            doc = fitz.open(); p = doc.new_page()
            want, info = [], []
            vert = k % 6 == 5
            p.insert_text((72, 80), 'plain first line of text here', fontsize=11); want += [(c, frozenset()) for c in 'plain first line of text here']
            ys = [130 + 45 * i for i in range(5)]
            if vert: ys = ys[:1]
            for y in ys:
                s = sentence(rng, rng.randint(3, 6))[:50]
                size = rng.choice([10, 12, 14.5])
                cw = .6 * size      # Courier
                n = len(s)
                i, j = sorted(rng.sample(range(n + 1), 2))
                t_ = rng.choice(['underline', 'strike', 'link', 'area', 'none', 'ulink'])
                colr = rng.choice(list(HL.values()) + [0x123456, 0x0A8040, 0x0000AB, 0, 0])
                rgb = tuple(min(((colr >> q) & 255) / 255 + .001, 1) for q in (16, 8, 0))
                tc, tci = rng.choice([((0, 0, 0), 0), (rgb, colr), ((1, 0, 0), 0xFF0000), ((0, 0, 1), 0xFF)])
                if t_ == 'area' and (j - i > n * .6 or j - i < 2): t_ = 'none'
                if vert and t_ in ('link', 'ulink'): t_ = 'none'
                e = rng.choice([0, .3 * cw, -.3 * cw, 0])
                a, b = 72 + i * cw + e, 72 + j * cw - e
                if b - a < .6 * cw: t_ = 'none'
                # the box of a Courier line: ascender and descender from the extracted text
                if vert:
                    X, Y = 300, 700
                    p.insert_text((X, Y), s, fontname='cour', fontsize=size, color=tc, rotate=90)
                    at = lambda u0, v0, u1, v1: fitz.Rect(X + (v0 - y), Y - (u1 - 72), X + (v1 - y), Y - (u0 - 72))
                else:
                    p.insert_text((72, y), s, fontname='cour', fontsize=size, color=tc)
                    at = lambda u0, v0, u1, v1: fitz.Rect(u0, v0, u1, v1)
                tp = p.get_text('dict')
                sp = [q for bl in tp['blocks'] for l in bl.get('lines', []) for q in l['spans'] if q['text'].startswith(s[:4])]
                top, bot = (sp[-1]['bbox'][0] - X + y, sp[-1]['bbox'][2] - X + y) if vert else (sp[-1]['bbox'][1], sp[-1]['bbox'][3])
                h = bot - top
                new = set()
                if t_ in ('underline', 'ulink'):
                    v = bot - .13 * h; p.draw_rect(at(a, v, b, v + .6), color=None, fill=rgb)
                    new.add(('underline', None if tci == colr else colr))
                if t_ == 'strike':
                    v = bot - .5 * h; p.draw_rect(at(a, v, b, v + .6), color=None, fill=rgb)
                    new.add(('strike', None))
                if t_ == 'area':
                    p.draw_rect(at(a, top + .02 * h, b, bot - .02 * h), color=None, fill=rgb, overlay=False); new.add(('area', colr))
                if t_ in ('link', 'ulink'):
                    uri = address(rng)
                    if s[i:j].strip():
                        p.insert_link(dict(kind=2, uri=uri, **{'from': fitz.Rect(a, top, b, bot)})); new.add(('link', uri))
                want += [(c, frozenset(new) if i <= q < j and t_ != 'none' else frozenset()) for q, c in enumerate(s)]
                info.append(dict(text=s, size=size, kind=t_, chars=(i, j), e=e, color=hex(colr), vertical=vert))
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            convert(pdf, os.path.join(t, 'a.docx'))
            got = run_styles(Docx(os.path.join(t, 'a.docx')))
            x.case('pages', k, info[0])
            g, w = [c for c in got if c[0] != ' '], [c for c in want if c[0] != ' ']
            if not x.check(''.join(c for c, _ in g) == ''.join(c for c, _ in w), 'pages:text', 'styling keeps the text', got=''.join(c for c, _ in g), lines=info): continue
            for q, (c1, c2) in enumerate(zip(g, w)):
                if not x.check(c1[1] == c2[1], 'pages:style', 'in the docx, exactly the marked characters carry the style of the mark', position=q, char=c1[0], got=sorted(map(str, c1[1])), expected=sorted(map(str, c2[1])), lines=info): break


def address(rng):
    """an address of any usual form"""
    w = lambda: word(rng)
    return rng.choice([f'https://{w()}.org/{w()}', f'http://{w()}.org/{w()}#{w()}', f'https://{w()}.org/?{w()}=1&{w()}=%20{w()}#{w()}', f'mailto:{w()}@{w()}.org', f'ftp://{w()}.net/{w()}/', f'https://{w().upper()}.org/{w().upper()}'])


def extent(size):
    """top and bottom of a row of text, from its base line"""
    doc = fitz.open(); p = doc.new_page(); p.insert_text((50, 200), 'x', fontname='cour', fontsize=size)
    b = p.get_text('dict')['blocks'][0]['lines'][0]['spans'][0]['bbox']
    return b[1] - 200, b[3] - 200


def many(x):
    """several marks of all kinds on a row, also on one another, in table cells and on turned pages"""
    rng = x.rng('many')
    with scratch() as t:
        f = lambda n: os.path.join(t, n)
        for k in range(40 * x.n):
            if x.left() < 8: break
            doc, deg = fitz.open(), rng.choice([0, 0, 0, 90, 180, 270])
            p = Turned(doc, 595, 842, deg)
            want, info = [], []
            first = 'plain first line of text that is rather long, from one side of the page to the other side of it'
            p.insert_text((72, 80), first, fontsize=10); want += [(c, frozenset()) for c in first]
            size = rng.choice([10, 12, 14.5]); cw = .6 * size; top, bot = extent(size); h = bot - top
            y, cell = 120, rng.random() < .4
            if cell:
                ys = [y + 45 * i for i in range(6)]
                for v in ys: p.draw_line((66, v), (540, v), width=rng.choice([.5, 1]))
                for v in (66, 540): p.draw_line((v, ys[0]), (v, ys[-1]), width=.5)
            for row in range(5):
                s = sentence(rng, rng.randint(3, 8))[:44]
                n, base = len(s), y + 28 + 45 * row
                p.insert_text((72, base), s, fontname='cour', fontsize=size)
                marks, st = [], [set() for _ in s]
                palette = rng.sample(list(HL.values()) + [0x123456, 0x0A8040, 0], 4)
                for kind, colr in zip(rng.sample(['underline', 'strike', 'area', 'link'], rng.choice([0, 1, 2, 3, 4])), palette):
                    rgb = tuple(min(((colr >> q) & 255) / 255 + .001, 1) for q in (16, 8, 0))
                    cuts = sorted(rng.sample(range(n + 1), rng.choice([2, 2, 4])))
                    for i, j in zip(cuts[::2], cuts[1::2]):
                        if kind == 'area' and (j - i > n * .6 or j - i < 2): continue
                        e = rng.choice([0, .3 * cw, -.3 * cw])
                        if j - i < 3: e = 0
                        a, b = 72 + i * cw + e, 72 + j * cw - e
                        if marks and marks[-1][0] == kind and a < marks[-1][3] + 3: continue      # lines of one kind that touch are one
                        if kind == 'link' and not s[i:j].strip(): continue
                        if kind == 'underline': v = base + top + .87 * h; p.draw_rect((a, v, b, v + .6), color=None, fill=rgb); style = ('underline', colr or None)
                        elif kind == 'strike': v = base + top + .5 * h; p.draw_rect((a, v, b, v + .6), color=None, fill=rgb); style = ('strike', None)
                        elif kind == 'area': p.draw_rect((a, base + top + .02 * h, b, base + bot - .02 * h), color=None, fill=rgb, overlay=False); style = ('area', colr)
                        else:
                            style = ('link', address(rng))
                            p.insert_link(dict(kind=2, uri=style[1], **{'from': fitz.Rect(a, base + top, b, base + bot)}))
                        marks.append((kind, i, j, b, hex(colr)))
                        for q in range(i, j): st[q].add(style)
                want += [(c, frozenset(q)) for c, q in zip(s, st)]
                info.append(dict(text=s, marks=[(m[0], m[1], m[2], m[4]) for m in marks]))
            p.insert_text((72, 780), 'end', fontsize=10); want += [(c, frozenset()) for c in 'end']
            moved = (rng.randint(-90, 90), rng.randint(-90, 90), rng.random() < .5) if rng.random() < .3 else None
            if moved: shift(doc, p.page, *moved)
            doc.save(f('a.pdf')); doc.close()
            convert(f('a.pdf'), f('a.docx'))
            got = run_styles(Docx(f('a.docx')))
            x.case('many', k, info[0])
            info = dict(lines=info, size=size, cells=cell, rotation=deg, moved=moved, no=k)
            g, w = [c for c in got if c[0] != ' '], [c for c in want if c[0] != ' ']
            if not x.check(''.join(c for c, _ in g) == ''.join(c for c, _ in w), 'many:text', 'styling keeps the text', got=''.join(c for c, _ in g), **info): continue
            for q, (c1, c2) in enumerate(zip(g, w)):
                if not x.check(c1[1] == c2[1], 'many:style', 'in the docx, exactly the marked characters carry the styles of all their marks', position=q, char=c1[0], around=''.join(c for c, _ in g[max(q - 9, 0):q]) + '>' + ''.join(c for c, _ in g[q:q + 6]), got=sorted(map(str, c1[1])), expected=sorted(map(str, c2[1])), **info): break
