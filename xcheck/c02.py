"""C02: injected failures of single pages"""
import os, re
from .lib import *
from .c01 import InlinePool
RULE = 'one case = one conversion of a document with a set of failing pages (analysis or writing); distinct = different (pages, failing sets, place, history)'
PARTS = ['faults', 'reparse', 'bad_files']


class Boom(Exception): pass
ERRORS = [Boom, ValueError, ZeroDivisionError, KeyError, TypeError, AttributeError, IndexError, RuntimeError, AssertionError, NotImplementedError, OSError, StopIteration, MemoryError, RecursionError]


class Faults:
    """makes chosen steps fail on chosen pages"""
    def __init__(self, x):
        from pdf2docx.page.Page import Page
        from pdf2docx.page.Layout import Layout
        from pdf2docx.text.TextBlock import TextBlock
        from pdf2docx.page.RawPage import RawPage
        self.analysis, self.writing, self.err, self.place = set(), set(), Boom, None
        self.undo = []
        def page_no(layout):
            p = layout._parent
            return p.fitz_page.number if isinstance(p, Page) else None
        def num(page): return page.fitz_page.number
        self.wrap(Layout, 'parse', lambda s: self.place == 'layout' and page_no(s) in self.analysis, late=False)
        self.wrap(Layout, 'clean_up', lambda s: self.place == 'clean' and page_no(s) in self.analysis, late=False)
        self.wrap(Page, '_parse_layout', lambda s: self.place == 'late' and num(s) in self.analysis, late=True)
        self.wrap(Page, '_load_source', lambda s: self.place == 'load' and num(s) in self.analysis, late=False)
        def marked(b):
            m = re.search(r'PAGE(\d+)X', b.text)
            return m and int(m.group(1)) in self.writing
        self.wrap(TextBlock, 'make_docx', lambda s: self.place2 == 'text' and marked(s), late=False)
        self.wrap(TextBlock, 'make_docx', lambda s: self.place2 == 'text-late' and marked(s), late=True)
        self.wrap(Page, 'make_docx', lambda s: self.place2 == 'page' and num(s) in self.writing, late=False)
        self.wrap(Page, 'make_docx', lambda s: self.place2 == 'page-late' and num(s) in self.writing, late=True)
        self.place2 = None
    def wrap(self, cls, name, when, late):
        f = getattr(cls, name)
        def g(s, *a, **k):
            if not late and when(s): raise self.err('injected')
            r = f(s, *a, **k)
            if late and when(s): raise self.err('injected')
            return r
        self.undo.append((cls, name, f))
        setattr(cls, name, g)
    def close(self):
        for c, n, f in self.undo[::-1]: setattr(c, n, f)


def shown(d):
    """[(page marker, section width in twips)] in document order"""
    out = []
    for s, es in Docx(d).sections():
        w = s.find(W + 'pgSz').get(W + 'w')
        for e in es:
            for m in re.finditer(r'PAGE(\d+)X', ''.join(text_of(e))): out.append((int(m.group(1)), int(w)))
    return out


def width(i): return (300 + 10 * i) * 20


def one(x, m, F, tmp, rng, pdf, n, k, mp):
    F.err = rng.choice(ERRORS)
    F.place, F.place2 = rng.choice(['layout', 'clean', 'late', 'load']), rng.choice(['text', 'text-late', 'page', 'page-late'])
    sel = sorted(rng.sample(range(n), rng.randint(1, n)))
    F.analysis = {i for i in sel if rng.random() < .4} if rng.random() < .8 else set()
    F.writing = {i for i in sel if rng.random() < .4} if rng.random() < .6 else set()
    if rng.random() < .1: F.analysis = set(sel)
    d = os.path.join(tmp, f'o{k}.docx')
    info = dict(pages=n, selected=sel, failing_analysis=sorted(F.analysis), failing_writing=sorted(F.writing), places=[F.place, F.place2], error=F.err.__name__, workers=mp)
    x.case('faults', sorted(info.items(), key=str), info)
    cv = m.Converter(pdf)
    raised = None
    try:
        with quiet(): cv.convert(d, pages=sel, kwargs=dict(multi_processing=True, cpu_count=mp) if mp else None)
    except Exception as e: raised = e
    finally: cv.close()
    good = [i for i in sel if i not in F.analysis]
    if not good:
        x.check(raised is not None, 'silent', 'an error is raised when no selected page can be analysed', **info)
        x.check(not os.path.exists(d), 'silent', 'nothing is written when no selected page can be analysed', **info)
        return
    if not x.check(raised is None and os.path.exists(d), 'stopped', f'the conversion finishes although single pages fail ({type(raised).__name__}: {raised})', **info): return
    s = shown(d)
    full = [i for i in good if i not in F.writing]
    got = [i for i, _ in s]
    x.check([i for i in got if i in full] == full, 'lost', 'every other selected page is written, once, in order', written=got, expected=full, **info)
    x.check(all(i in good for i in got), 'failed page', 'a page whose analysis failed contributes nothing', written=got, **info)
    x.check(all(w == width(i) for i, w in s if i in full), 'section', 'every other page keeps its own page size', written=s, **info)


def faults(x):
    import pdf2docx.converter as m
    rng = x.rng('faults')
    F = x.api(lambda: Faults(x))
    P = getattr(m, 'Pool', None)
    if P: m.Pool = InlinePool
    try:
        with scratch() as tmp:
            n = 5
            pdf = os.path.join(tmp, 'f.pdf')
            marker_pdf(pdf, n)
            for k in range(60 * x.n):
                one(x, m, F, tmp, rng, pdf, n, k, rng.choice([0, 0, 0, 2, 3]) if P else 0)
                if x.left() < 20: break
    finally:
        F.close()
        if P: m.Pool = P


def reparse(x):
    """a page that parsed before fails now: its old content does not appear"""
    import pdf2docx.converter as m
    rng = x.rng('reparse')
    F = x.api(lambda: Faults(x))
    try:
        with scratch() as tmp:
            n = 4
            pdf, d = os.path.join(tmp, 'f.pdf'), os.path.join(tmp, 'o.docx')
            marker_pdf(pdf, n)
            for k in range(24 * x.n):
                cv = m.Converter(pdf)
                F.err, F.place = rng.choice(ERRORS), rng.choice(['layout', 'clean', 'late', 'load'])
                F.analysis, F.writing = set(), set()
                done = set()
                hist = []
                for step in range(rng.randint(2, 4)):
                    sel = sorted(rng.sample(range(n), rng.randint(1, n)))
                    F.analysis = {i for i in sel if rng.random() < .5} if step else set()
                    with quiet(): cv.parse(sel, {})
                    done = (done | set(sel)) - F.analysis
                    hist.append((sel, sorted(F.analysis)))
                x.case('reparse', (hist, F.place), dict(steps=hist, place=F.place))
                if done:
                    if os.path.exists(d): os.remove(d)
                    with quiet(): cv.make_docx(d)
                    got = [i for i, _ in shown(d)]
                    x.check(got == sorted(done), 'stale', 'after parsing in steps exactly the pages whose last analysis succeeded are written', steps=hist, place=F.place, error=F.err.__name__, written=got, expected=sorted(done))
                else:
                    r = None
                    try:
                        with quiet(): cv.make_docx(d)
                    except Exception as e: r = e
                    x.check(r is not None, 'stale', 'no page left to write: an error', steps=hist)
                cv.close()
    finally: F.close()


def bad_files(x):
    """real page defects: odd content streams, missing resources, broken images next to plain pages"""
    rng = x.rng('bad')
    with scratch() as tmp:
        for k in range(6 * x.n):
            pdf, d = os.path.join(tmp, f'b{k}.pdf'), os.path.join(tmp, f'b{k}.docx')
            doc = fitz.open()
            n = 4
            bad = set(rng.sample(range(n), rng.randint(1, 3)))
            for i in range(n):
                p = doc.new_page(width=300 + 10 * i, height=400)
                p.insert_text((72, 100), f'PAGE{i}X')
                if i in bad:
                    xr = p.get_contents()[0]
                    s = doc.xref_stream(xr)
                    junk = rng.choice([b'\nBT /Nope 12 Tf (x) Tj ET', b'\nq 1 0 0 1 0 0 cm /Im99 Do Q', b'\n10 10 m 20 20 l S\n q q q', b'\n( ]] >> garbage', b'\n0 0 0 0 re f', b'\nBT /helv 0 Tf 1 0 0 1 50 60 Tm (zero) Tj ET'])
                    doc.update_stream(xr, s + junk)
            doc.save(pdf); doc.close()
            x.case('bad files', (k,), dict(bad=sorted(bad)))
            with quiet(): convert(pdf, d)
            got = [i for i, _ in shown(d)]
            x.check([i for i in got if i not in bad] == [i for i in range(n) if i not in bad], 'bad page', 'pages next to a damaged page are written', damaged=sorted(bad), written=got)
