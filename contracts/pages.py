"""C01-C03: page selection, fault isolation, files written"""
from pyvc.spec import *

schema('Page', _finalized='bool', id='int')

# ------------------------------------------------------------------ selection
def norm(v, n): return Ite(v < 0, Max(v + n, 0), Min(v, n))


@contract('C01', 'converter:Converter._page_indexes')
def slice_selection(c):
    n = c.int('pages', 0, None, (0, 9)); start = c.int('start', None, None, (-11, 11))
    end = c.int('end', None, None, (-11, 11)) if c.choice('has_end', [True, False]) else None
    pages = c.choice('pages_arg', [None, c.vlist([])])
    r = c.call(c.mod('converter').Converter._page_indexes, start, end, pages, n)
    lo = norm(start, n)
    hi = n if end is None else norm(end, n)
    c.ensures('as many pages as the slice has', eq(Len(r), Max(hi - lo, 0)))
    c.ensures('the pages of the slice in order', forall(0, Len(r), lambda i: eq(at(r, i), lo + i)))


@contract('C01', 'converter:Converter._page_indexes')
def list_selection(c):
    n = c.int('n', 0, None, (0, 9))
    pages = c.list('pages', 'int')
    c.requires(Len(pages) > 0)
    start, end = c.int('start'), c.choice('end', [None, 3])
    r = c.call(c.mod('converter').Converter._page_indexes, start, end, pages, n)
    c.ensures('only pages of the document', forall(0, Len(r), lambda i: And(at(r, i) >= 0, at(r, i) < n)))
    c.ensures('only listed pages', forall(0, Len(r), lambda i: exists(0, Len(pages), lambda j: eq(at(pages, j), at(r, i)))))
    c.ensures('every listed page of the document', forall(0, Len(pages), lambda j: Implies(
        And(at(pages, j) >= 0, at(pages, j) < n), exists(0, Len(r), lambda i: eq(at(r, i), at(pages, j))))))


# ------------------------------------------------------------------ parsing the selected pages
FAIL = ufun('page_analysis_fails', 'bool')
WFAIL = ufun('page_writing_fails', 'bool')

def page_parse(ctx):
    """contract of Page.parse (proved below): finalized exactly if no exception is raised"""
    def stub(self, settings=None):
        self._finalized = False
        if FAIL(self): raise Exception('page fails')
        self._finalized = True
        return self
    return stub


def converter(c, pages=None):
    C = c.mod('converter').Converter
    ps = pages if pages is not None else c.list('pages', ('obj', 'page.Page:Page'))
    c.requires(distinct(ps))
    return c.raw(C, _pages=ps, filename_pdf=c.str('pdf'))


def selected(idx, k, q): return exists(0, k, lambda j: eq(at(idx, j), q))


@contract(['C01', 'C02', 'C21'], 'converter:Converter.parse', n=0, stubs={'page.Page:Page.parse': page_parse}, loops={0: Loop(inv=lambda L: [
    ('exactly the pages visited so far are parsed', forall(0, Len(L.self._pages), lambda q: Iff(
        at(L.self._pages, q)._finalized,
        Ite(selected(L.page_indexes, L.k_, q), Not(FAIL(at(L.self._pages, q))), L.entry_(lambda: at(L.self._pages, q)._finalized)))))])},
    assumes=['contract of Page.parse used at its call (proved separately): finalized iff it returns normally'])
def parse_selection(c):
    cv = converter(c)
    idx = c.list('page_indexes', 'int')
    n = Len(cv._pages)
    c.requires(forall(0, Len(idx), lambda j: And(at(idx, j) >= 0, at(idx, j) < n)))
    H = snapshot(lambda q: at(cv._pages, q)._finalized)
    r = c.call(cv.parse, idx, {})
    c.ensures('returns the converter', same(r, cv))
    c.ensures('a selected page is parsed unless its own analysis fails; other pages are untouched', forall(0, n, lambda q: Iff(
        at(cv._pages, q)._finalized, Ite(selected(idx, Len(idx), q), Not(FAIL(at(cv._pages, q))), H(q)))))


@contract(['C01', 'C02', 'C21'], 'converter:Converter.parse', n=0, stubs={'page.Page:Page.parse': page_parse}, loops={0: Loop(inv=lambda L: [
    ('exactly the pages visited so far are parsed', forall(0, L.k_, lambda q: Iff(at(L.self._pages, q)._finalized, Not(FAIL(at(L.self._pages, q))))))])})
def parse_everything(c):
    cv = converter(c)
    c.call(cv.parse, None, {})
    c.ensures('every page is parsed unless its own analysis fails', forall(0, Len(cv._pages), lambda q: Iff(
        at(cv._pages, q)._finalized, Not(FAIL(at(cv._pages, q))))))


@contract(['C01', 'C21'], 'converter:Converter._ignore_parsed_pages', n=0, loops={0: Loop(inv=lambda L: [
    ('pages visited so far', forall(0, L.k_, lambda q: Not(at(L.self._pages, q)._finalized)))])})
def ignore_parsed(c):
    cv = converter(c)
    c.call(cv._ignore_parsed_pages)
    c.ensures('no page is parsed', forall(0, Len(cv._pages), lambda q: Not(at(cv._pages, q)._finalized)))
