"""C01: selections against real conversions"""
import os
from .lib import *
RULE = 'one case = one conversion / table extraction / worker partition; distinct = different (pages, selection, history)'
PARTS = ['partition', 'selections', 'cli', 'workers']


def expected(n, start, end, pages):
    """pages a selection stands for (None: no page)"""
    if pages: return sorted({p for p in pages if 0 <= p < n})
    return list(range(n)[slice(start, n if end is None else end)])


def sel(rng, n):
    m = rng.random()
    if m < .5:
        pages = [rng.randint(-2, n + 1) for _ in range(rng.randint(1, 5))]
        return 0, None, pages
    if m < .6: return 0, None, []
    end = rng.choice([None, None, 0] + [rng.randint(-n - 1, n + 2) for _ in range(4)])
    return rng.randint(-n - 1, n + 1) if rng.random() < .4 else rng.randint(0, n), end, None


def shown(d):
    import re
    out = []
    for t in Docx(d).texts(): out.append([int(i) for i in re.findall(r'PAGE(\d+)X', t)])
    return out


def run_convert(x, cv, d, s, e, p, n, what, kwargs=None):
    want = expected(n, s, e, p)
    raised = None
    if os.path.exists(d): os.remove(d)
    try:
        with quiet(): cv.convert(d, s, e, p, kwargs)
    except Exception as ex: raised = ex
    if not want:
        x.check(raised is not None or not any(sum(shown(d), [])), 'empty', f'{what}: an empty selection writes no page', pages=n, selection=[s, e, p])
        return
    if not x.check(raised is None, 'raised', f'{what}: converts a non-empty selection ({raised})', pages=n, selection=[s, e, p]): return
    got = shown(d)
    x.check(got == [[i] for i in want], 'pages', f'{what}: exactly the selected pages, in order, one section each', pages=n, selection=[s, e, p], written=got, expected=want)


def run_tables(x, cv, s, e, p, n, what):
    want = expected(n, s, e, p)
    with quiet(): t = cv.extract_tables(s, e, p)
    got = [[c for r in tab for c in r if c and c.startswith('TABLE')] for tab in t]
    x.check(got == [[f'TABLE{i}X'] for i in want], 'tables', f'{what}: tables of exactly the selected pages', pages=n, selection=[s, e, p], got=got, expected=want)


def selections(x):
    from pdf2docx import Converter
    rng = x.rng('sel')
    with scratch() as tmp:
        for k in range(4 * x.n):
            n = rng.choice([1, 2, 3, 4, 6])
            pdf, d = os.path.join(tmp, f's{k}.pdf'), os.path.join(tmp, f's{k}.docx')
            marker_pdf(pdf, n, table=True)
            cv = Converter(pdf)
            for step in range(9):
                s, e, p = sel(rng, n)
                x.case('selections', (n, s, e, p), dict(pages=n, start=s, end=e, list=p, step=step))
                what = f'step {step} on the same converter'
                if rng.random() < .7: run_convert(x, cv, d, s, e, p, n, what)
                else: run_tables(x, cv, s, e, p, n, what)
                if x.left() < 20: break
            cv.close()


def cli(x):
    from pdf2docx.main import PDF2DOCX
    rng = x.rng('cli')
    with scratch() as tmp:
        n = 4
        pdf, d = os.path.join(tmp, 'cli.pdf'), os.path.join(tmp, 'cli.docx')
        marker_pdf(pdf, n, table=True)
        for k in range(8 * x.n):
            one = rng.random() < .6
            pages = [rng.randint(0, n) for _ in range(rng.randint(1, 4))] if rng.random() < .5 else None
            s = rng.randint(0, n - 1)
            e = None if rng.random() < .4 else rng.randint(s + 1, n + 1)
            o = 1 if one else 0
            want = expected(n, s, e, pages)
            kw = dict(start=s + o, end=None if e is None else e + o, pages=[q + o for q in pages] if pages else None)
            if pages: kw.pop('start'); kw.pop('end')
            if one: kw['zero_based_index'] = False
            x.case('cli', (s, e, pages, one), dict(one_based=one, **kw))
            if not want: continue
            with quiet(): PDF2DOCX.convert(pdf, d, **kw)
            x.check(shown(d) == [[i] for i in want], 'cli', 'command line: exactly the selected pages', options=kw, written=shown(d), expected=want)
            with quiet(): t = PDF2DOCX.table(pdf, **kw)
            got = [[c for r in tab for c in r if c and c.startswith('TABLE')] for tab in t]
            x.check(got == [[f'TABLE{i}X'] for i in want], 'cli-table', 'command line: tables of exactly the selected pages', options=kw, got=got, expected=want)


class InlinePool:
    """pool running its jobs here, in order"""
    def __init__(self, *a, **k): pass
    def map(self, f, vs, *a, **k): return [f(v) for v in vs]
    imap = imap_unordered = map
    def starmap(self, f, vs, *a, **k): return [f(*v) for v in vs]
    def close(self): pass
    join = terminate = close
    def __enter__(self): return self
    def __exit__(self, *a): pass


def partition(x):
    """any number of workers (run in this process): exactly the selected pages are parsed, each once"""
    import pdf2docx.converter as m
    rng = x.rng('part')
    if not hasattr(m, 'Pool') or not hasattr(m, 'cpu_count'): x.api(lambda: 1 / 0)
    real, cnt, P = m.Pool, m.cpu_count, m.Page.parse
    m.Pool, m.cpu_count = InlinePool, lambda: 64
    log = []
    def parse(self, *a, **k):
        log.append(self.fitz_page.number)
        return P(self, *a, **k)
    m.Page.parse = parse
    try:
        with scratch() as tmp:
            n = 9
            pdf, d = os.path.join(tmp, 'p.pdf'), os.path.join(tmp, 'p.docx')
            marker_pdf(pdf, n)
            for k in range(25 * x.n):
                cpu = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 9, 12])
                if rng.random() < .5: s, e, p = rng.randint(0, 3), rng.choice([None, rng.randint(4, n)]), None
                else: s, e, p = 0, None, rng.sample(range(n), rng.randint(1, n))
                cv = m.Converter(pdf)
                log.clear()
                x.case('partition', (s, e, p, cpu))
                run_convert(x, cv, d, s, e, p, n, f'{cpu} workers', dict(multi_processing=True, cpu_count=cpu))
                want = expected(n, s, e, p)
                x.check(sorted(log) == want, 'partition', 'workers together parse exactly the selected pages, each once', cpu=cpu, selected=want, parsed=list(log))
                cv.close()
    finally: m.Pool, m.cpu_count, m.Page.parse = real, cnt, P


def workers(x):
    from pdf2docx import Converter
    rng = x.rng('mp')
    with scratch() as tmp:
        n = 5
        pdf = os.path.join(tmp, 'mp.pdf')
        marker_pdf(pdf, n)
        for k in range(3 * x.n):
            pages = sorted(rng.sample(range(n), rng.randint(1, 4)))
            if k % 2: pages = pages[::-1]
            cpu = rng.randint(1, 4)
            d = os.path.join(tmp, f'mp{k}.docx')
            cv = Converter(pdf)
            if k % 3 == 1:
                with quiet(): cv.convert(os.path.join(tmp, 'other.docx'), pages=[rng.randrange(n)])
            x.case('workers', (pages, cpu), dict(pages=pages, cpu=cpu))
            run_convert(x, cv, d, 0, None, pages, n, f'{cpu} workers', dict(multi_processing=True, cpu_count=cpu))
            cv.close()
