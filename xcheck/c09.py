"""C09: text conservation, end to end: characters of the page = characters of the docx"""
import os, io, contextlib, collections
import fitz
from . import pdfs
from .lib import scratch, quiet, Docx, W, word, sentence, text_of
RULE = 'one case = one generated page (or one arrangement of lines); distinct = different pages'
PARTS = ['pages', 'straddling', 'corners', 'reading_order', 'overprint', 'joining', 'directions', 'bottom_up']
FLAGS = fitz.TEXTFLAGS_TEXT


def bag(s): return collections.Counter(ch for ch in s if not ch.isspace())
def squeeze(s): return ''.join(s.split())


def run(pdf, docx):
    """converted document and console output"""
    from pdf2docx import Converter
    cv = Converter(pdf)
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b): cv.convert(docx)
    finally: cv.close()
    return Docx(docx), b.getvalue()


def paragraphs(d):
    """text of every paragraph of the document, paragraphs of nested tables on their own"""
    out = []
    for p in d.body.iter(W + 'p'): out.append(''.join(t.text or '' for t in p.iter(W + 't')))
    return out


def compare(x, key, pdf, t, words=True, **info):
    d, log = run(pdf, os.path.join(t, 'a.docx'))
    if 'due to overlap' in log: return None
    doc = fitz.open(pdf)
    want = bag(doc[0].get_text('text', flags=FLAGS)); got = bag(''.join(d.texts()))
    info['text'] = doc[0].get_text('text', flags=FLAGS)[:400]
    ok = x.check(got == want, key, 'every visible character appears exactly once',
                 missing=''.join((want - got).elements())[:80], extra=''.join((got - want).elements())[:80], log=log[-300:], **info)
    g = glued(d, doc[0]) if ok else None
    if g: x.fail(key + ':blank', 'words with a blank between them stay separate', words=g, **info)
    if ok and words:
        ps = [squeeze(p) for p in paragraphs(d)]
        for w in doc[0].get_text('words', flags=FLAGS):
            if not any(w[4] in p for p in ps):
                x.fail(key + ':words', 'the characters of a word stay together in their order', word=w[4], **info); break
    return d


def glued(d, page):
    """two words of one line with a blank between them that the document writes without one"""
    ps = [''.join('\t' if e.tag == W + 'tab' else '\n' if e.tag == W + 'br' else e.text or '' for e in p.iter(W + 't', W + 'tab', W + 'br')) for p in d.body.iter(W + 'p')]
    text = page.get_text('text', flags=FLAGS)
    for b in page.get_text('dict', flags=FLAGS)['blocks']:
        for l in b.get('lines', ()):
            for s in l['spans']:
                w = s['text'].split()
                for u, v in zip(w, w[1:]):
                    if len(u) > 2 and len(v) > 2 and u + v not in text and any(u + v in p for p in ps): return u, v
    return None


def pages(x):
    rng = x.rng('pages')
    with scratch() as t:
        for k in range(80 * x.n):
            if x.left() < 20: break
            pdf = os.path.join(t, 'a.pdf')
            pdfs.rich_pdf(pdf, rng, 1)
            x.case('pages', k, f'rich page {k}')
            compare(x, 'pages', pdf, t, words=False, page=k)


def straddling(x):
    """text and pictures across the lines of a ruled table"""
    rng = x.rng('straddling')
    with scratch() as t:
        for k in range(120 * x.n):
            if x.left() < 15: break
            doc = fitz.open(); p = doc.new_page()
            nr, nc = rng.randint(1, 4), rng.randint(1, 4)
            xs, ys = [72], [100]
            for _ in range(nc): xs.append(xs[-1] + rng.choice([40, 60, 25, 80, 120]))
            for _ in range(nr): ys.append(ys[-1] + rng.choice([16, 22, 30]))
            for y in ys: p.draw_line((xs[0], y), (xs[-1], y), width=1)
            for a in xs: p.draw_line((a, ys[0]), (a, ys[-1]), width=1)
            used = []
            for _ in range(rng.randint(1, 4)):
                y = rng.uniform(ys[0] - 5, ys[-1] + 8)
                if any(abs(y - v) < 16 for v in used): continue
                used.append(y)
                p.insert_text((xs[0] + rng.uniform(-30, xs[-1] - xs[0]), y), sentence(rng, rng.randint(1, 3)), fontsize=rng.choice([8, 10, 12]))
            p.insert_text((72, 400), 'tail text here')
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            x.case('straddling', k)
            compare(x, 'straddling', pdf, t, words=False, page=k, columns=xs, rows=ys)


def corners(x):
    """tables in the open corners of frames whose outer boxes overlap them"""
    rng = x.rng('corners')
    with scratch() as t:
        for k in range(80 * x.n):
            if x.left() < 12: break
            doc = fitz.open(); p = doc.new_page()
            w, h = rng.randint(150, 350), rng.randint(100, 350)
            x0, y0 = rng.randint(60, 120), rng.randint(110, 200)
            a, b = rng.choice([0, 1]), rng.choice([0, 1])           # the corner with lines
            F = fitz.Rect(x0, y0, x0 + w, y0 + h)
            X, Y = (F.x0, F.x1)[a], (F.y0, F.y1)[b]
            wd = rng.choice([.5, 1, 2])
            for u, v in (((F.x0, Y), (F.x1, Y)), ((X, F.y0), (X, F.y1))): p.draw_line(u, v, width=wd)
            # a table over the corner without lines
            dx, dy = rng.randint(20, w - 60), rng.randint(20, h - 40)
            ex, ey = rng.choice([-30, 0, 40, 90]), rng.choice([-20, 0, 40, 90])
            T = fitz.Rect(F.x0 + dx, F.y0 + dy, F.x1 + ex, F.y1 + ey) if (a, b) == (0, 0) else fitz.Rect(F.x0 - ex, F.y0 + dy, F.x1 - dx, F.y1 + ey) if (a, b) == (1, 0) else \
                fitz.Rect(F.x0 + dx, F.y0 - ey, F.x1 + ex, F.y1 - dy) if (a, b) == (0, 1) else fitz.Rect(F.x0 - ex, F.y0 - ey, F.x1 - dx, F.y1 - dy)
            if T.width < 50 or T.height < 30 or T.x0 < 20: continue
            p.draw_rect(T, width=wd)
            cut = rng.choice([0, 0, 1])
            if cut: p.draw_line((T.x0, T.y0 + T.height / 2), (T.x1, T.y0 + T.height / 2), width=wd)
            y, first = T.y0 + 14, T.y0
            while y < T.y1 - 4:
                if rng.random() < .8 and not (cut and abs(y - 3 - T.y0 - T.height / 2) < 10): p.insert_text((T.x0 + rng.choice([5, 5, 12]), y), word(rng, rng.randint(2, max(2, int(T.width / 9)))), fontsize=8)
                y += rng.choice([11, 12, 20])
            p.insert_text((T.x0 - 40 if a else T.x1 + 8, T.y0 + 20), word(rng, 4), fontsize=8)
            p.insert_text((72, 60), sentence(rng, 12), fontsize=10); p.insert_text((72, 740), sentence(rng, 12), fontsize=10)
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            x.case('corners', k)
            compare(x, 'corners', pdf, t, words=False, page=k, frame=tuple(F), table=tuple(T), corner=(a, b))


def reading_order(x):
    """one column of plain paragraphs: the text of the docx is the text of the page from top to bottom, left to right"""
    rng = x.rng('order')
    with scratch() as t:
        for k in range(40 * x.n):
            if x.left() < 12: break
            doc = fitz.open(); p = doc.new_page()
            y, want, calls = 80, '', []
            for _ in range(rng.randint(1, 7)):
                size = rng.choice([9, 10, 12, 14])
                for _ in range(rng.randint(1, 4)):
                    s = sentence(rng, rng.randint(1, 8))[:60]
                    # pieces of a line, one right behind the other, in different fonts
                    a, cut = 72, rng.randint(0, len(s)) if rng.random() < .4 else len(s)
                    f1, f2 = rng.choice(pdfs.FONTS), rng.choice(pdfs.FONTS)
                    calls.append((a, y, s[:cut], f1, size))
                    calls.append((a + fitz.get_text_length(s[:cut], f1, size), y, s[cut:], f2, size))
                    want += s; y += size * 1.4
                y += rng.choice([6, 15, 30])
            if rng.random() < .6: rng.shuffle(calls)
            for a, b, s, f, z in calls:
                if s: p.insert_text((a, b), s, fontname=f, fontsize=z)
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            x.case('reading_order', k)
            d, log = run(pdf, os.path.join(t, 'a.docx'))
            x.check(squeeze(''.join(d.texts())) == squeeze(want), 'order', 'text is written in reading order', expected=squeeze(want)[:300], got=squeeze(''.join(d.texts()))[:300], page=k, log=log[-200:])


def overprint(x):
    """text printed twice on the same place counts once; different text elsewhere is not affected"""
    rng = x.rng('overprint')
    with scratch() as t:
        for k in range(10 * x.n):
            doc = fitz.open(); p = doc.new_page()
            lines = [sentence(rng, 5) for _ in range(4)]
            which = rng.randrange(4)
            for i, s in enumerate(lines):
                p.insert_text((72, 100 + 30 * i), s, fontsize=11)
            p.insert_text((72.2, 100 + 30 * which), lines[which], fontsize=11)
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            x.case('overprint', k)
            d, log = run(pdf, os.path.join(t, 'a.docx'))
            got = ''.join(d.texts())
            src = fitz.open(pdf); raw = src[0].get_text('text', flags=FLAGS)
            for i, s in enumerate(lines):
                n = squeeze(got).count(squeeze(s))
                m = squeeze(raw).count(squeeze(s))
                x.check(n == 1 if i != which else 1 <= n <= max(m, 1), 'overprint', 'text printed twice on one place counts once, other text is not affected', line=s, times=n, got=got[:300])


def joining(x):
    """joining of lines in a text block keeps all characters but those of an overlapping line"""
    from pdf2docx.text.TextBlock import TextBlock
    rng = x.rng('joining')
    def block(specs):
        return TextBlock({'type': 0, 'lines': [{'wmode': 0, 'dir': (1.0, 0.0), 'spans': [
            {'size': 10.0, 'flags': 0, 'font': 'Arial', 'color': 0, 'bbox': (a, b, a + 5 * len(s), b + h),
             'chars': [{'c': c, 'origin': (a + 5 * i, b + h), 'bbox': (a + 5 * i, b, a + 5 * i + 5, b + h)} for i, c in enumerate(s)]}]} for a, b, h, s in specs]})
    def plain():
        b = block([(0, 0, 10, 'ab'), (10, 0, 10, 'cd')]); b.lines.join(0.9, 2.0); return b.text
    x.api(plain)
    for k in range(600 * x.n):
        specs, at_ = [], []
        for r in range(rng.randint(1, 4)):
            a = rng.choice([0, 0, 3.5, 40])
            for _ in range(rng.randint(1, 4)):
                s = word(rng, rng.randint(1, 5))
                specs.append((a, 14 * r + rng.choice([0, 0, 0, 2, -3, 5]), rng.choice([10, 10, 10, 14, 7]), s))
                a += 5 * len(s) + rng.choice([0, .5, 1, 1.9, 2.1, 4, 12, -1])
        rng.shuffle(specs)
        b = block(specs)
        x.case('joining', specs, specs)
        with contextlib.redirect_stdout(io.StringIO()) as log: b.lines.join(line_overlap_threshold=.9, line_merging_threshold=2.0)
        if 'overlap' in log.getvalue(): continue
        got = bag(''.join(s.text for l in b.lines for s in l.spans)); want = bag(''.join(s for *_, s in specs))
        x.check(got == want, 'joining', 'joining lines keeps every character once', lines=specs, missing=dict(want - got), extra=dict(got - want))
        if got == want:
            all_ = [''.join(s.text for s in l.spans) for l in b.lines]
            for *_, s in specs:
                x.check(any(s in a for a in all_), 'joining', 'joining lines keeps the order within a line', lines=specs, line=s, got=all_)
        groups = b.lines.split_back()
        x.check(sorted(id(l) for g in groups for l in g) == sorted(id(l) for l in b.lines), 'joining', 'splitting lines by their source block keeps every line once', lines=specs)


def directions(x):
    """bottom-up text is kept, other directions and text outside the page are dropped - alone"""
    rng = x.rng('directions')
    with scratch() as t:
        for k in range(12 * x.n):
            doc = fitz.open(); p = doc.new_page()
            want = ''
            for i in range(4):
                s = sentence(rng, 3)
                p.insert_text((72, 90 + 25 * i), s, fontsize=11); want += s
            s = sentence(rng, 2); p.insert_text((450, 500), s, fontsize=11, rotate=90); want += s
            lost = ''
            if k % 2: lost = sentence(rng, 2).upper(); p.insert_text((300, 500), lost, fontsize=11, rotate=rng.choice([180, 270]))
            else: p.insert_text((-300, 300), 'OUTSIDE', fontsize=11)
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            x.case('directions', k)
            d, log = run(pdf, os.path.join(t, 'a.docx'))
            got = bag(''.join(d.texts()))
            x.check(got == bag(want), 'directions', 'text set left to right or bottom-up is kept, text outside the page or in other directions is left out',
                    missing=dict(bag(want) - got), extra=dict(got - bag(want)), log=log[-200:])


def bottom_up(x):
    """text set from bottom to top: lines follow each other from left to right, pieces of a line from bottom to top"""
    rng = x.rng('bottom_up')
    with scratch() as t:
        for k in range(30 * x.n):
            if x.left() < 10: break
            turned = rng.random() < .5       # a page stored upright and displayed turned, or text written bottom-up
            doc = fitz.open(); p = doc.new_page(width=800, height=600)
            calls, want, v = [], [], rng.choice([60, 100, 200])
            def put(u, v, s):
                if turned: p.insert_text((u, v), s, fontsize=11)
                else: p.insert_text((v, 590 - u), s, fontsize=11, rotate=90)
            for i in range(rng.randint(1, 6)):
                u, pieces = 72, rng.choice([1, 1, 2, 3])
                for j in range(pieces):
                    s = sentence(rng, rng.randint(1, 3) if pieces > 1 else rng.randint(4, 9))[:70 if pieces == 1 else 18]
                    calls.append((u, v, s)); want.append(s)
                    u += fitz.get_text_length(s, fontsize=11) + rng.choice([15, 30, 60])
                v += rng.choice([15, 15, 22, 40])
            if rng.random() < .5: rng.shuffle(calls)
            for c in calls: put(*c)
            if turned: p.set_rotation(270)
            pdf = os.path.join(t, 'a.pdf'); doc.save(pdf); doc.close()
            x.case('bottom_up', k, dict(turned=turned, lines=want))
            d, log = run(pdf, os.path.join(t, 'a.docx'))
            got = squeeze(''.join(d.texts()))
            x.check(bag(got) == bag(''.join(want)), 'bottom_up', 'text set from bottom to top is kept', missing=dict(bag(''.join(want)) - bag(got)), extra=dict(bag(got) - bag(''.join(want))), lines=want, turned=turned)
            if not any(True for _ in d.body.iter(W + 'tbl')): x.check(got == squeeze(''.join(want)), 'bottom_up:order', 'pieces of text set from bottom to top follow each other in reading order', got=got, lines=calls, turned=turned)
            for para in paragraphs(d):     # also inside of cells
                para = squeeze(para)
                at = [para.index(squeeze(w)) for w in want if len(squeeze(w)) > 6 and para.count(squeeze(w)) == 1]
                x.check(at == sorted(at), 'bottom_up:order', 'pieces of text set from bottom to top follow each other in reading order', got=para, lines=calls, turned=turned)
