"""C19: effect of every setting on generated documents"""
import os, random
from .lib import *
from .pdfs import *
RULE = 'one case = one setting with one value on one generated document; distinct = different setting, value or measure of the document'
PARTS = ['thresholds', 'paragraphs', 'defaults', 'history', 'workers']
LONG = 'a paragraph of the page which is rather long and fills the line to the end of it'


def width(t, fs=11): return fitz.get_text_length(t, fontsize=fs)


def new():
    """a page which is not taken as two columns"""
    d = fitz.open()
    p = d.new_page(width=595, height=842)
    p.insert_text((72, 50), 'Top', fontsize=11); p.insert_text((72, 800), 'End', fontsize=11); p.insert_text((72, 80), LONG, fontsize=11)
    return d, p


def words_of(rng, w, fs=11):
    """words as wide as wanted (within a point)"""
    t = 'q'
    while width(t + 'xx', fs) < w: t += rng.choice('abcdefghknopqrstuvxyz    ') if t[-1] != ' ' else 'e'
    t = t.rstrip() + 'e'
    ends = ('', 'i', 'l', 'ii', 'il', 'r', 't', 'f', 'if', 'm', 'w', 'li', 'fl', 'c', 'j.', '..', '.', '.i', '.r', '.c', '.m')
    return min((t + e for e in ends), key=lambda u: abs(width(u, fs) - w))


class Runner:
    """one document converted with various settings"""
    def __init__(self, tmp): self.pdf, self.out = os.path.join(tmp, 's.pdf'), os.path.join(tmp, 's.docx')
    def save(self, doc): doc.save(self.pdf); doc.close(); return self
    def docx(self, **kw): convert(self.pdf, self.out, **(dict(kwargs=kw) if kw else {})); return Docx(self.out)
    def tables(self, **kw):
        from pdf2docx import Converter
        cv = Converter(self.pdf)
        try:
            with quiet(): return cv.extract_tables(kwargs=kw)
        finally: cv.close()
    def stored(self, **kw):
        from pdf2docx import Converter
        cv = Converter(self.pdf)
        try:
            with quiet(): cv.parse(kwargs=kw)
            return cv.store()['pages'][0]
        finally: cv.close()


def grid(p, x, y, w, h, rows, cols, t):
    for r in range(rows + 1): p.draw_line((x, y + r * h), (x + cols * w, y + r * h), width=1)
    for c in range(cols + 1): p.draw_line((x + c * w, y), (x + c * w, y + rows * h), width=1)
    for r in range(rows):
        for c in range(cols): p.insert_text((x + c * w + 8, y + r * h + 18), f'{t}{r}{c}', fontsize=10)


# one function per setting: builds a document with a measure m of its own, returns the observation and what it has to be for a value v
def connected(rng, m):
    d, p = new()
    grid(p, 220, 120, 80, 30, 2, 2, 'a'); grid(p, 220, 181 + m, 80, 30, 2, 2, 'b')
    return d, lambda r, **kw: len(r.tables(**kw)), lambda v: 1 if m < v else 2 if m > 2.5 * v + .5 else None


def border(rng, m):
    d, p = new()
    for r in range(3): p.draw_rect((200, 120 + 40 * r, 400, 120 + 40 * r + m), color=None, fill=(0, 0, 0))
    for c in range(3): p.draw_rect((200 + 100 * c, 120, 200 + 100 * c + m, 200), color=None, fill=(0, 0, 0))
    for r in range(2):
        for c in range(2): p.insert_text((220 + 100 * c, 148 + 40 * r), 'cell', fontsize=10)
    return d, lambda r, **kw: r.tables(**kw), lambda v: [[['cell', 'cell'], ['cell', 'cell']]] if m < v - .1 else [] if m > v + .1 else None


def clearance(rng, m):
    d, p = new()
    grid(p, 220, 120, 80, 30, 2, 2, 'a'); p.draw_line((220, 150 + m), (380, 150 + m), width=.5)
    return d, lambda r, **kw: [len(t) for t in r.tables(**kw)], lambda v: [2] if m < v - .2 else [3] if m > v + .2 else None


def floating(rng, m):
    d, p = new()
    p.insert_text((72, 300), LONG[:25], fontsize=40)
    b = [l for b in p.get_text('dict')['blocks'] for l in b['lines'] if l['spans'][0]['size'] > 30][0]['bbox']
    p.insert_image(fitz.Rect(150, b[3] - m, 250, b[3] - m + 80), pixmap=pixmap(rng), keep_proportion=False)
    return d, lambda r, **kw: len(list(r.docx(**kw).body.iter(WP + 'anchor'))), lambda v: 0 if m < v - .1 else 1 if m > 2 * v + 2 else None


def curves(n, k):
    d, p = new()
    s = p.new_shape()
    for i in range(n):
        y = 200 + 10 * i
        if i < k: s.draw_bezier((200, y), (220, y + 20), (240, y - 20), (260, y + 5))
        else: s.draw_line((200, y), (260, y))
        s.finish(width=1)
    s.draw_line((200, 195), (200, 200 + 10 * n)); s.finish(width=1)
    s.commit()
    return d


def curved(rng, m):
    k = rng.randint(1, 9)
    return curves(9, k), lambda r, **kw: len(r.docx(**kw).media), lambda v: 1 if k / 10 > v + .01 else 0 if k / 10 < v - .01 else None


def resolution(rng, m):
    def look(r, **kw):
        x = r.docx(**kw)
        import zipfile
        with zipfile.ZipFile(r.out) as z: px = [fitz.Pixmap(z.read(n)) for n in z.namelist() if n.startswith('word/media/')]
        ext = [int(e.get('cx')) / 12700 for e in x.body.iter(WP + 'extent')]
        return [round(p.width / e, 1) for p, e in zip(px, ext)]
    return curves(9, 9), look, lambda v: [round(v, 1)]


def overlap(rng, m):
    d, p = new()
    t = 'some words'
    p.insert_text((72, 120), t, fontsize=11); p.insert_text((72 + width(t) * (1 - m), 120), t, fontsize=11)
    return d, lambda r, **kw: ''.join(r.docx(**kw).texts()).count(t), lambda v: 1 if m > v + .06 else 2 if m < v - .06 else None


def merging(rng, m):
    d, p = new()
    t = 'left part of the row'
    p.insert_text((72, 120), t, fontsize=11); p.insert_text((72 + width(t) + m, 120), 'right part of this row', fontsize=11)
    n = len([l for b in p.get_text('rawdict')['blocks'] for l in b['lines']])
    def count(bs):
        k = 0
        for b in bs:
            k += len(b.get('lines', []))
            for r in b.get('rows', []): k += sum(count(c['blocks']) for c in r['cells'] if c)
        return k
    return d, lambda r, **kw: count(r.stored(**kw)['blocks']), lambda v: None if n != 5 else 4 if m < v - .3 else 5 if m > v + .3 else None


def separate(rng, m):
    d, p = new()
    t = 'left part of the row'
    p.insert_text((72, 120), t, fontsize=11); p.insert_text((72 + width(t) + m, 120), 'right part of this row', fontsize=11)
    bs = [len(b['lines']) for b in p.get_text('rawdict')['blocks']]
    return d, lambda r, **kw: len(list(r.docx(**kw).body.iter(W + 'tbl'))), lambda v: None if 2 not in bs else 0 if m < v - .3 else 1 if m > v + .3 else None


def shape_merge(rng, m):
    d, p = new()
    p.draw_rect((200, 200, 300, 240), color=None, fill=(1, 0, 0)); p.draw_rect((200 + 100 * (1 - m), 200, 200 + 100 * (2 - m), 240), color=None, fill=(1, 0, 0))
    return d, lambda r, **kw: len(r.stored(**kw)['shapes']), lambda v: 1 if m > v + .03 else 2 if m < v - .03 else None


def shape_min(rng, m):
    d, p = new()
    a, b = (m, m * .7) if rng.random() < .5 else (m * .7, m)
    p.draw_rect((200, 200, 200 + a, 200 + b), color=None, fill=(1, 0, 0))
    return d, lambda r, **kw: len(r.stored(**kw)['shapes']), lambda v: 1 if m > v + .05 else 0 if m < v - .05 else None


def tolerance(rng, m):
    d, p = new()
    p.insert_text((150, 320), 'left column', fontsize=11); p.insert_text((350, 320 + 15.1 * (1 - m)), 'right column', fontsize=11)
    return d, lambda r, **kw: len(list(r.docx(**kw).body.iter(W + 'tbl'))), lambda v: 1 if m > v + .04 else 0 if m < v - .04 else None


def margin(which):
    def f(rng, m):
        d = fitz.open()
        p = d.new_page(width=595, height=842)
        p.insert_text((72, m + 12), 'Top ' + LONG, fontsize=11); p.insert_text((72, 842 - m - 5), 'End ' + LONG, fontsize=11)
        ls = [l['bbox'] for b in p.get_text('dict')['blocks'] for l in b['lines']]
        free = ls[0][1] if which == 'top' else 842 - ls[-1][3]
        return d, lambda r, **kw: round(int(r.docx(**kw).sections()[0][0].find(W + 'pgMar').get(W + which)) / 20), lambda v: None if abs(free * v % 1 - .5) < .15 else round(min(72, free * v))
    return f


def streams(rng, m):
    d, p = new()
    for i in range(3):
        for j in range(3): p.insert_text((90 + 150 * j, 200 + 20 * i), f'w{i}{j}', fontsize=11)
    grid(p, 220, 420, 80, 30, 2, 2, 'a')
    want = [['a00', 'a01'], ['a10', 'a11']]
    def look(r, **kw):
        ts = r.tables(**kw)
        return want in ts, any('w11' in str(t) for t in ts)
    return d, look, lambda v: (True, bool(v))


# setting: (document, measures, values)
RATIO = [.03, .1, .2, .3, .5, .7, .85, .97]
SETTINGS = dict(connected_border_tolerance=(connected, (.3, 1.5, 4, 8), (.5, .2, 1, 2, 5)), max_border_width=(border, (1.5, 4, 5.6, 7, 10), (6.0, 1, 3, 5, 8, 12)),
    min_border_clearance=(clearance, (1, 1.6, 2.5, 4, 8), (2.0, 1.2, 3, 6, 10)), float_image_ignorable_gap=(floating, (3, 4.5, 14, 25, 35), (5.0, 1, 8, 15, 30)),
    curve_path_ratio=(curved, (0,), (.2, .05, .35, .55, .8)), clip_image_res_ratio=(resolution, (0,), (3.0, 1.0, 2.0, 4.0, 6.0)),
    line_overlap_threshold=(overlap, (.3, .5, .7, .8, .97), (.9, .2, .4, .6, .75)), line_merging_threshold=(merging, (12, 15, 20), (2.0, 8, 14, 18, 30)),
    line_separate_threshold=(separate, (12, 15, 20), (5.0, 8, 14, 18, 30)), shape_merging_threshold=(shape_merge, (.1, .4, .6, .9), (.5, .05, .3, .75, .95)),
    shape_min_dimension=(shape_min, (1, 1.8, 2.3, 5, 12), (2.0, .5, 4, 8, 20)), float_layout_tolerance=(tolerance, (.2, .3, .5, .8), (.1, .25, .4, .65, .95)),
    page_margin_factor_top=(margin('top'), (30, 60, 90), (.5, 0.0, .25, .75, 1.0)), page_margin_factor_bottom=(margin('bottom'), (30, 60, 90), (.5, 0.0, .25, .75, 1.0)),
    extract_stream_table=(streams, (0,), (False, True)))


def thresholds(x):
    """a setting takes effect at its value, and at its default when it is not given"""
    rng = x.rng('thresholds')
    with scratch() as tmp:
        r = Runner(tmp)
        for _ in range(x.n):
            for name, m in sorted(((n, m) for n, v in SETTINGS.items() for m in v[1]), key=lambda _: rng.random()):
                doc, measures, values = SETTINGS[name]
                if x.left() < 0: return
                d, look, want = doc(rng, m)
                r.save(d)
                others = {k: v[2][0] for k, v in SETTINGS.items() if k != name and rng.random() < .3}
                for v in [None, values[0]] + sorted({min(values[1:]), max(values[1:]), rng.choice(values[1:])}):
                    w = want(values[0] if v is None else v)
                    if w is None: continue
                    kw = {} if v is None else {name: v}
                    got = look(r, **kw, **others)
                    info = dict(setting=name, value=v, measure=m, also=list(others))
                    x.case('thresholds', (name, v, m), info)
                    x.check(got == w, f'effect:{name}', 'a setting takes effect at the value given' if v is not None else 'a setting not given has its default', got=got, want=w, **info)


def look_at(docx, key):
    for q in docx.body.iter(W + 'p'):
        if q.find('.//' + W + 'p') is None and key in ''.join(text_of(q)):
            j = q.find(f'{W}pPr/{W}jc')
            return (j.get(W + 'val') if j is not None else None), len(list(q.iter(W + 'tabs'))), len(list(q.iter(W + 'br')))


def paragraphs(x):
    """alignment and line breaks, on the page and in table cells"""
    rng = x.rng('paragraphs')
    with scratch() as tmp:
        r = Runner(tmp)
        for k in range(4 * x.n):
            for kind in ('left', 'right', 'center', 'free'):
                if x.left() < 0: return
                cell = k % 2 == 1
                doc, p = new()
                if cell:
                    p.draw_rect((60, 280, 560, 420)); p.draw_rect((60, 420, 560, 460)); p.insert_text((160, 440), 'other cell', fontsize=11)
                y = 320
                if kind == 'free':
                    name, values = 'line_free_space_ratio_threshold', (.1, .03, .2, .45, .8)
                    f = rng.choice([.06, .15, .3, .6])
                    end = 555 if cell else 523
                    x0 = 80 if cell else 72
                    for i, q in enumerate((1, 1 - f, 1, .3)):
                        t = words_of(rng, (end - x0) * q)
                        if i == 0: key = t
                        p.insert_text((x0, y), t, fontsize=11); y += 14
                    want = lambda v: ('left', 0, 1) if f > v + .025 else ('left', 0, 0) if f < v - .025 else None
                    m = f
                else:
                    name, values = f'lines_{kind}_aligned_threshold', ((2.0 if kind == 'center' else 1.0), .3, 1.7, 2.6, 8.0)
                    m, fs = rng.choice([1.5, 2.2, 4]), 20
                    off = [0, m, 0, 0] if kind != 'right' else [0, 0, m, 0]
                    ts = [words_of(rng, 250 + ((5 if kind == 'right' else 7.5) if i % 2 else 0), fs) for i in range(4)]
                    key = ts[0]
                    for t, o in zip(ts, off):
                        w = width(t, fs)
                        p.insert_text(({'left': 200 + o, 'right': 450 - w + o, 'center': 325 - w / 2 + o}[kind], y), t, fontsize=fs); y += 24
                    want = lambda v: (kind, 0) if m < v - .15 else ('left', 1) if m > v + .15 else None
                if 4 not in [len(b['lines']) for b in p.get_text('rawdict')['blocks']]: doc.close(); continue
                r.save(doc)
                for v in [None, values[0]] + rng.sample(values[1:], 2):
                    w = want(values[0] if v is None else v)
                    if w is None: continue
                    got = look_at(r.docx(**({} if v is None else {name: v})), key)
                    info = dict(setting=name, value=v, measure=m, cell=cell)
                    x.case('paragraphs', (name, v, m, cell), info)
                    x.check(got is not None and tuple(got[:len(w)]) == w, f'effect:{name}', 'a setting takes effect at the value given' if v is not None else 'a setting not given has its default', got=got, want=w, **info)


def given(rng):
    """some settings with values other than their defaults"""
    names = rng.sample(list(SETTINGS), rng.randint(1, 5))
    return {n: rng.choice(SETTINGS[n][2][1:]) for n in names}


def rich(rng, path, pages=2):
    rich_pdf(path, rng, pages)


def all_defaults():
    kw = {n: v[2][0] for n, v in SETTINGS.items()}
    kw.update(line_free_space_ratio_threshold=.1, lines_left_aligned_threshold=1.0, lines_right_aligned_threshold=1.0, lines_center_aligned_threshold=2.0)
    return kw


def defaults(x):
    """rich documents: the documented defaults are used; order, unknown settings and settings given twice do not matter"""
    rng = x.rng('defaults')
    with scratch() as tmp:
        pdf, a, b = (os.path.join(tmp, n) for n in ('d.pdf', 'a.docx', 'b.docx'))
        for k in range(6 * x.n):
            if x.left() < 0: return
            rich(rng, pdf)
            convert(pdf, a)
            x.case('defaults', ('rich', k), dict(document=k))
            convert(pdf, b, kwargs=all_defaults())
            x.check(same_docx(a, b), 'defaults', 'giving the documented defaults changes nothing', document=k)
            kw = given(rng)
            before = dict(kw)
            convert(pdf, a, kwargs=kw)
            x.check(kw == before, 'argument', 'the settings of the caller stay as they are', given=before, after={q: kw.get(q) for q in kw})
            full = {**all_defaults(), **kw, 'unknown_setting': 5}
            convert(pdf, b, kwargs=dict(sorted(full.items(), reverse=True)))
            x.check(same_docx(a, b), 'others', 'settings not given keep their documented defaults; unknown ones have no effect', given=before, document=k)


def history(x):
    """settings of one conversion do not reach the next one, and all pages use the same ones"""
    rng = x.rng('history')
    from pdf2docx import Converter
    with scratch() as tmp:
        pdf, a, b = (os.path.join(tmp, n) for n in ('d.pdf', 'a.docx', 'b.docx'))
        for k in range(4 * x.n):
            if x.left() < 0: return
            rich(rng, pdf, 3)
            k1, k2 = given(rng), rng.choice([{}, given(rng)])
            cv = Converter(pdf)
            with quiet():
                cv.convert(a, kwargs=dict(k1)); cv.convert(a, kwargs=dict(k2))
            cv.close()
            convert(pdf, b, kwargs=dict(k2))
            x.case('history', (tuple(k1), tuple(k2), k), dict(first=k1, then=k2))
            x.check(same_docx(a, b), 'history', 'the settings of an earlier conversion have no effect', first=k1, then=k2)
            one = rng.randrange(3)
            convert(pdf, a, kwargs=dict(k1), pages=[one])
            convert(pdf, b, kwargs=dict(k1))
            x.check(Docx(a).texts()[:1] == Docx(b).texts()[one:one + 1], 'pages', 'every page uses the settings', page=one, given=k1)
            with quiet():
                cv = Converter(pdf)
                kw = dict(k1)
                try: cv.debug_page(one, a, os.path.join(tmp, 'debug.pdf'), os.path.join(tmp, 'layout.json'), kwargs=kw)
                finally: cv.close()
            x.check(kw == k1, 'argument', 'the settings of the caller stay as they are', given=k1, after=list(kw), by='debug_page')
            convert(pdf, b, kwargs=dict(k1), pages=[one])
            x.check(same_docx(a, b), 'debug', 'drawing the layout changes nothing of the document', page=one, given=k1)


def workers(x):
    """worker processes use the settings too"""
    rng = x.rng('workers')
    with scratch() as tmp:
        pdf, a, b = (os.path.join(tmp, n) for n in ('d.pdf', 'a.docx', 'b.docx'))
        for k in range(2 * x.n):
            if x.left() < 0: return
            rich(rng, pdf, 3)
            kw = given(rng)
            convert(pdf, a, kwargs=dict(kw))
            par = dict(kw, multi_processing=True, cpu_count=2)
            before = dict(par)
            convert(pdf, b, kwargs=par)
            x.case('workers', (tuple(kw), k), dict(given=kw))
            x.check(par == before, 'argument', 'the settings of the caller stay as they are', given=before)
            x.check(Docx(a).texts() == Docx(b).texts(), 'workers', 'worker processes use the settings of the caller', given=kw)
