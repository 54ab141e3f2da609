"""C01-C03: writing the docx, the conversion as a whole, worker processes, command line"""
from pyvc.spec import *
from .pages import FAIL, WFAIL, page_parse, converter, norm

EXISTS = ufun('file_exists', 'bool')


class Doc:
    """stand-in of the python-docx document: records the pages written and the saves"""
    _pyvc_stub = True
    def __init__(self, c):
        self.written, self.saves, self.ops = c.vlist([]), [], None
    def save(self, filename): self.ops.append(('save', filename))


class Path:
    def exists(self, f): return EXISTS(f)
    isfile = exists
    def splitext(self, f):
        return ufun('stem', 'str')(f), ufun('extension', 'str')(f)
    def basename(self, f): return ufun('basename', 'str')(f)
    def join(self, a, b): return a + '/' + b


class OS:
    def __init__(self, ops): self.ops, self.path = ops, Path()
    def remove(self, f): self.ops.append(('remove', f))
    unlink = remove


class World:
    """everything the code can do to the file system goes through these"""
    def __init__(self, c):
        self.ops = []
        self.doc = ghost('doc', Doc(c)); self.doc.ops = self.ops
        self.os = OS(self.ops)


def world_stubs():
    """stubs sharing one record of file operations per path"""
    box = {}
    def os_(ctx):
        ctx.world = World(ctx)
        return ctx.world.os
    def document(ctx):
        def make(*a): return ctx.world.doc
        return make
    def page_make(ctx):
        def stub(self, doc):
            doc.written.append(self.id)
            if WFAIL(self): raise Exception('page cannot be written')
        return stub
    return {'converter:os': os_, 'converter:Document': document, 'page.Page:Page.make_docx': page_make}


WRITE = Loop(inv=lambda L: [
    ('the pages so far are written, in order, none twice', And(eq(Len(ghost('doc').written), L.k_), forall(0, Len(ghost('doc').written), lambda j: eq(at(ghost('doc').written, j), at(L.seq_, j)[1].id))))],
    types={'written': 'int'})


def same_ops(a, b):
    return len(a) == len(b) and And([And(x[0] == y[0], eq(x[1], y[1])) for x, y in zip(a, b)] or [True])


@contract(['C01', 'C02', 'C03'], 'converter:Converter.make_docx', n=0, stubs=world_stubs(), loops={0: WRITE},
          assumes=['os.path.exists/remove/splitext and python-docx Document replaced by stand-ins that record every file operation',
                   'Page.make_docx replaced by its contract: appends to the document passed to it, and may raise'])
def write_docx(c):
    cv = converter(c)
    n = Len(cv._pages)
    c.requires(forall(0, n, lambda q: eq(at(cv._pages, q).id, q)))
    any_parsed = exists(0, n, lambda q: at(cv._pages, q)._finalized)
    c.requires(any_parsed)
    given = c.choice('target', ['given', None])
    name = c.str('docx_filename') if given else None
    if given: c.requires(Len(name) > 0)
    c.call(cv.make_docx, name)
    w, ops = c.world.doc.written, c.world.ops
    target = name if given else ufun('stem', 'str')(cv.filename_pdf) + '.docx'
    c.ensures('only parsed pages are written', forall(0, Len(w), lambda j: And(at(w, j) >= 0, at(w, j) < n, at(cv._pages, at(w, j))._finalized)))
    c.ensures('every parsed page is written, even if others fail', forall(0, n, lambda q: Implies(at(cv._pages, q)._finalized, exists(0, Len(w), lambda j: eq(at(w, j), q)))))
    c.ensures('in document order, each once', forall(0, Len(w) - 1, lambda j: at(w, j) < at(w, j + 1)))
    saves = [o for o in ops if o[0] == 'save']
    c.ensures('the requested docx is saved once, as the last operation', len(saves) == 1 and ops[-1][0] == 'save' and eq(ops[-1][1], target))
    c.ensures('no other file is touched', And([eq(o[1], target) for o in ops]))


@contract(['C01', 'C02', 'C03'], 'converter:Converter.make_docx', n=0, stubs=world_stubs(), loops={0: WRITE})
def nothing_parsed(c):
    cv = converter(c)
    c.requires(forall(0, Len(cv._pages), lambda q: Not(at(cv._pages, q)._finalized)))
    raised = False
    try: cv.make_docx(c.str('docx_filename'))
    except Exception as e:
        if 'Unsupported' in type(e).__name__: raise
        raised = True
    c.ensures('an error is raised', raised)
    c.ensures('no file is touched', len(c.world.ops) == 0)


# ------------------------------------------------------------------ the whole conversion
def parse_contract(ctx):
    """contract of Converter.parse (proved: parse_selection, parse_everything)"""
    def stub(self, page_indexes=None, kwargs=None):
        ctx.parse_calls.append((page_indexes, kwargs, [snapshot_pages(self)]))
        return self
    return stub


def snapshot_pages(cv): return snapshot(lambda q: at(cv._pages, q)._finalized)


def log(name, out):
    def factory(ctx):
        def stub(self, *a, **k):
            ctx.log = getattr(ctx, 'log', []) + [(name, a, k, snapshot_pages(self))]
            return self
        return stub
    return factory


def flow_stubs():
    return {'converter:Converter._parse_and_create_pages': log('serial', None), 'converter:Converter._parse_and_create_pages_with_multi_processing': log('parallel', None),
            'converter:Converter.parse': log('parse', None), 'page.Page:Page.extract_tables': tables_contract, 'converter:Converter._page_indexes': indexes_contract,
            'converter:Converter._ignore_parsed_pages': ignore_contract}


def tables_contract(ctx):
    def stub(self): return ctx.vlist([self.id])
    return stub


def indexes_contract(ctx):
    def stub(start, end, pages, n):
        ctx.selections = getattr(ctx, 'selections', []) + [(start, end, pages, n)]
        ctx.sel = ctx.list('selected', 'int')
        return ctx.sel
    return stub


def ignore_contract(ctx):
    """contract of Converter._ignore_parsed_pages (proved: ignore_parsed)"""
    def stub(self):
        ctx.ignored = True
        ctx.log = getattr(ctx, 'log', []) + [('ignore', (), {}, None)]
    return stub


@contract(['C01', 'C03'], 'converter:Converter.convert', n=0, stubs=flow_stubs(),
          assumes=['contracts of _page_indexes, _ignore_parsed_pages, parse, make_docx used at their calls (each proved separately)'])
def conversion(c):
    cv = converter(c)
    start, end = c.int('start'), c.choice('end', [None, 0, 5])
    pages = c.choice('pages', [None, c.vlist([2, 0])])
    kw = c.choice('kwargs', [None, dict(), dict(multi_processing=False), dict(multi_processing=True)])
    par = bool(kw and kw.get('multi_processing'))
    d = c.str('docx')
    c.call(cv.convert, d, start, end, pages, kw)
    log = c.log
    c.ensures('the selection asked for is used', And(len(c.selections) == 1, eq(c.selections[0][0], start), c.selections[0][1] is end, c.selections[0][2] is pages, eq(c.selections[0][3], Len(cv._pages))))
    c.ensures('pages parsed before are ignored, then the pages are converted once', [l[0] for l in log] == ['ignore', 'parallel' if par else 'serial'])
    a, k = log[1][1], log[1][2]
    names = dict(zip(('docx_filename', 'page_indexes', 'kwargs'), a)); names.update(k)
    c.ensures('the selected pages, to the requested file', names.get('docx_filename') is d and names.get('page_indexes') is c.sel)


@contract('C01', 'converter:Converter._parse_and_create_pages', n=0,
          stubs={'converter:Converter.parse': log('parse', None), 'converter:Converter.make_docx': log('write', None)})
def serial(c):
    cv = converter(c)
    idx, d, kw = c.list('page_indexes', 'int'), c.str('docx'), {'a': 1}
    c.call(cv._parse_and_create_pages, d, idx, kw)
    c.ensures('parsed first, written then', [l[0] for l in c.log] == ['parse', 'write'])
    def arg(l, n, i): return l[2].get(n, l[1][i] if len(l[1]) > i else None)
    c.ensures('the given pages', arg(c.log[0], 'page_indexes', 0) is idx)
    c.ensures('the given settings', arg(c.log[0], 'kwargs', 1) is kw)
    c.ensures('the given file', arg(c.log[1], 'docx_filename', 0) is d)


@contract('C01', 'converter:Converter.extract_tables', n=0, stubs=flow_stubs(), loops={0: Loop(inv=lambda L: [
    ('tables of the parsed pages so far', forall(0, Len(L.tables), lambda j: And(at(L.tables, j) >= 0, at(L.tables, j) < L.k_, at(L.self._pages, at(L.tables, j))._finalized))),
    ('none missing', forall(0, L.k_, lambda q: Implies(at(L.self._pages, q)._finalized, exists(0, Len(L.tables), lambda j: eq(at(L.tables, j), q))))),
    ('in order', forall(0, Len(L.tables) - 1, lambda j: at(L.tables, j) < at(L.tables, j + 1)))], types={'tables': 'int'})},
    assumes=['Page.extract_tables represented by one table per page, carrying the page number'])
def tables(c):
    cv = converter(c)
    n = Len(cv._pages)
    c.requires(forall(0, n, lambda q: eq(at(cv._pages, q).id, q)))
    start, end, pages = c.int('start'), c.choice('end', [None, 4]), c.choice('pages', [None, c.vlist([1])])
    r = c.call(cv.extract_tables, start, end, pages, None)
    c.ensures('the selection asked for is used', And(len(c.selections) == 1, eq(c.selections[0][0], start), c.selections[0][1] is end, c.selections[0][2] is pages))
    log = c.log
    c.ensures('pages parsed before are ignored, then the selected pages are parsed', [l[0] for l in log] == ['ignore', 'parse'] and log[1][2].get('page_indexes', log[1][1][0] if log[1][1] else None) is c.sel)
    c.ensures('tables of parsed pages only', forall(0, Len(r), lambda j: And(at(r, j) >= 0, at(r, j) < n, at(cv._pages, at(r, j))._finalized)))
    c.ensures('tables of all parsed pages', forall(0, n, lambda q: Implies(at(cv._pages, q)._finalized, exists(0, Len(r), lambda j: eq(at(r, j), q)))))
    c.ensures('in document order', forall(0, Len(r) - 1, lambda j: at(r, j) < at(r, j + 1)))


# ------------------------------------------------------------------ worker processes
class Worker:
    _pyvc_stub = True
    def __init__(self, pdf): self.pdf, self.calls = pdf, []
    def parse(self, page_indexes=None, kwargs=None): self.calls.append(('parse', page_indexes, kwargs)); return self
    def serialize(self, f): self.calls.append(('serialize', f, None))
    def close(self): self.calls.append(('close', None, None))


def run_worker(c, i, cpu, idx, kw):
    m = c.mod('converter')
    made = []
    real = m.Converter._parse_pages_per_cpu
    def make(pdf): made.append(Worker(pdf)); return made[-1]
    old = m.Converter
    m.Converter = make
    try: c.call(real, (i, cpu, idx, 'a.pdf', kw, 'x.json'))
    finally: m.Converter = old
    return made


@contract('C01', 'converter:Converter._parse_pages_per_cpu', n=0, timeout=20)
def worker_share(c):
    """the segments of the workers are contiguous, in order, and cover every selected page exactly once"""
    idx = c.list('page_indexes', 'int')
    cpu, i = c.int('cpu', 1), c.int('i', 0)
    c.requires(i < cpu)
    n = Len(idx)
    kw = {'debug': False}
    made = run_worker(c, i, cpu, idx, kw)
    c.ensures('one worker on the given document', len(made) == 1 and made[0].pdf == 'a.pdf')
    calls = made[0].calls
    c.ensures('parsed, then stored in the given file', [x[0] for x in calls] == ['parse', 'serialize', 'close'] and calls[1][1] == 'x.json' and calls[0][2] is kw)
    seg = calls[0][1]
    w = toint(n / cpu) + 1
    lo, hi = Min(i * w, n), Min((i + 1) * w, n)
    c.ensures('as many pages as its share', eq(Len(seg), hi - lo))
    c.ensures('the pages of its share', forall(0, Len(seg), lambda j: eq(at(seg, j), at(idx, lo + j))))
    c.ensures('lemma: all shares together reach the last page', cpu * w >= n)


# ------------------------------------------------------------------ command line
class CLIConverter:
    _pyvc_stub = True
    made = None
    def __init__(self, pdf): type(self).made.append(self); self.pdf, self.calls = pdf, []
    def convert(self, docx_filename=None, start=0, end=None, pages=None, kwargs=None): self.calls.append(('convert', docx_filename, start, end, pages, kwargs))
    def extract_tables(self, start=0, end=None, pages=None, kwargs=None): self.calls.append(('tables', None, start, end, pages, kwargs)); return ['tables']
    def close(self): self.calls.append(('close',))


def cli_stub(ctx):
    ctx.made = []
    return type('CLIConverter_', (CLIConverter,), {'made': ctx.made})


def cli(c, fn):
    one = c.choice('one_based', [True, False])
    start = c.int('start')
    has_end = c.choice('has_end', [True, False])
    end = c.int('end') if has_end else None
    pages = c.list('pages', 'int') if c.choice('has_pages', [True, False]) else None
    if one:
        c.requires(start >= 0)
        if has_end: c.requires(end >= 1)
    r = fn('a.pdf', start, end, pages, **({'zero_based_index': False} if one else {}), extra=7)
    calls = c.made[0].calls
    c.ensures('one call, then the document is closed', len(c.made) == 1 and c.made[0].pdf == 'a.pdf' and len(calls) == 2 and calls[1][0] == 'close')
    op, docx, s, e, p, kw = calls[0]
    off = 1 if one else 0
    # a start of 1 is the first page; an omitted start is 0 and means the first page in either mode
    c.ensures('first page', eq(s, Max(start - off, 0) if one else start))
    c.ensures('end', (e is None) if not has_end else eq(e, end - off))
    if pages is None: c.ensures('no page list', p is None)
    else:
        c.ensures('page list', And(eq(Len(p), Len(pages)), forall(0, Len(pages), lambda j: eq(at(p, j), at(pages, j) - off))))
    c.ensures('settings are passed on', kw.get('extra') == 7)
    return r, op, docx


@contract('C01', 'main:PDF2DOCX.convert', n=0, stubs={'main:Converter': cli_stub})
def cli_convert(c):
    f = c.mod('main').PDF2DOCX.convert
    r, op, docx = cli(c, lambda pdf, s, e, p, **k: c.call(f, pdf, 'b.docx', s, e, p, **k))
    c.ensures('converts to the given file', op == 'convert' and docx == 'b.docx')


@contract('C01', 'main:PDF2DOCX.table', n=0, stubs={'main:Converter': cli_stub})
def cli_table(c):
    r, op, docx = cli(c, lambda pdf, s, e, p, **k: c.call(c.mod('main').PDF2DOCX.table, pdf, s, e, p, **k))
    c.ensures('returns the tables', op == 'tables' and r == ['tables'])


# ------------------------------------------------------------------ Page.parse
def may_fail(name, heap=None):
    def factory(ctx):
        def stub(self, *a):
            if self.was: pass
            self._finalized = ctx.bool('finalized_' + name)
            if ufun(name + '_fails', 'bool')(self): raise Exception(name)
        return stub
    return factory


@contract(['C02', 'C21'], 'page.Page:Page.parse', n=0, stubs={
    'page.Page:Page._load_source': lambda ctx: (lambda self: step(ctx, self, 'load')), 'page.Page:Page._parse_layout': lambda ctx: (lambda self: step(ctx, self, 'layout'))})
def parse_page(c):
    P = c.mod('page.Page').Page
    p = c.raw(P, _finalized=c.bool('parsed_before'), settings=None, id=3)
    c.steps = []
    err = None
    try: r = p.parse(None)
    except Stop as e: err = e
    c.ensures('parsed exactly if no step failed', Iff(p._finalized, err is None))
    if err is None: c.ensures('source read, then analysed', [s for s in c.steps] == ['load', 'layout'] and same(r, p))


class Stop(Exception): pass

def step(ctx, page, name):
    ctx.steps.append(name)
    # an earlier successful run must not survive a failure here, and the page is not yet parsed
    if name == 'load': page._finalized = False
    if ctx.bool(name + '_fails'): raise Stop(name)


# ------------------------------------------------------------------ conversion with worker processes: files touched
class Temp:
    _pyvc_stub = True
    name = '/tmp/only-ours'
    def __enter__(self): return self.name
    def __exit__(self, *a): pass
    def cleanup(self): pass


class Files:
    _pyvc_stub = True
    def __init__(self, c): self.removed, self.read = c.vlist([]), c.vlist([])


class OS2:
    def __init__(self): self.path = Path2()
    def remove(self, f): ghost('files').removed.append(f)
    unlink = remove


class Path2(Path):
    pass


class PoolStub:
    _pyvc_stub = True
    def __init__(self, *a): pass
    def map(self, fn, vectors, chunk=None): ghost('files').vectors = vectors; ghost('files').fn = fn
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def close(self): pass
    join = terminate = close


def ours(f): return ufun('starts_with_temp', 'bool')(f) if False else startswith(f, Temp.name + '/')


def os2(ctx):
    ghost('files', Files(ctx))
    return OS2()


@contract(['C01', 'C03'], 'converter:Converter._parse_and_create_pages_with_multi_processing', n=0, timeout=20, stubs={
    'converter:os': os2, 'converter:TemporaryDirectory': lambda ctx: (lambda *a, **k: Temp()), 'converter:Pool': lambda ctx: PoolStub,
    'converter:cpu_count': lambda ctx: (lambda: ctx.cores), 'converter:Converter.deserialize': lambda ctx: (lambda self, f: ghost('files').read.append(f)),
    'converter:Converter.make_docx': lambda ctx: (lambda self, f=None: ctx.written.append(f))},
    loops={0: Loop(inv=lambda L: [
        ('only files of the temporary folder are removed', forall(0, Len(ghost('files').removed), lambda j: ours(at(ghost('files').removed, j)))),
        ('only files of the temporary folder are read', forall(0, Len(ghost('files').read), lambda j: ours(at(ghost('files').read, j)))),
        ('the results of the workers so far are read', forall(0, L.k_, lambda i: Implies(EXISTS(at(ghost('files').vectors, i)[5]), exists(0, Len(ghost('files').read), lambda j: eq(at(ghost('files').read, j), at(ghost('files').vectors, i)[5])))))], types={'removed': 'str', 'read': 'str'})},
    assumes=['TemporaryDirectory, multiprocessing.Pool and os replaced by recording stand-ins; the workers write only the file named in their arguments (proved: worker_share)'])
def parallel(c):
    cv = converter(c)
    c.cores, c.written = c.int('cores', 1), []
    kw = c.choice('kwargs', [{}, {'cpu_count': 3}])
    idx, d = c.list('page_indexes', 'int'), c.str('docx')
    c.call(cv._parse_and_create_pages_with_multi_processing, d, idx, kw)
    F = ghost('files')
    c.ensures('only files of the temporary folder are removed', forall(0, Len(F.removed), lambda j: ours(at(F.removed, j))))
    c.ensures('only files of the temporary folder are read', forall(0, Len(F.read), lambda j: ours(at(F.read, j))))
    v = F.vectors
    n = Len(v)
    c.ensures('at least one worker, as many as their count says', And(n >= 1, forall(0, n, lambda i: And(eq(at(v, i)[0], i), eq(at(v, i)[1], n)))))
    c.ensures('each gets the whole selection and the document', forall(0, n, lambda i: And(eq(Len(at(v, i)[2]), Len(idx)), forall(0, Len(idx), lambda j: eq(at(at(v, i)[2], j), at(idx, j))), eq(at(v, i)[3], cv.filename_pdf), at(v, i)[4] is kw)))
    c.ensures('each writes to the temporary folder', forall(0, n, lambda i: ours(at(v, i)[5])))
    c.ensures('the results of all workers are read', forall(0, n, lambda i: Implies(EXISTS(at(v, i)[5]), exists(0, Len(F.read), lambda j: eq(at(F.read, j), at(v, i)[5])))))
    c.ensures('the docx asked for is written once', len(c.written) == 1 and c.written[0] is d)
