"""C21: a page is converted the same, whatever is converted with it, before it or after it"""
import os, copy, json, subprocess
from .lib import *
from .pdfs import *
LONG = 'A line that is long enough to reach from the left over the middle of any page to its right, whatever else there is on it'
RULE = 'one case = one document of random pages and a history of conversions before the one that is compared'
PARTS = ['alone', 'history', 'errors', 'source']
KINDS = ['p', 'p', 't', 's', 'h', 'i', 'v']


def sections(path):
    """canonical content of every section"""
    d = Docx(path)
    out = []
    for s, es in d.sections():
        parts = []
        for e in es + [s]:
            e = copy.deepcopy(e)
            for x in list(e.iter(W + 'sectPr')):
                if x is not e: x.getparent().remove(x)
            # the paragraph that only carries the section
            if e.tag == W + 'p' and not len(e.findall(W + 'r')) and not ''.join(text_of(e)) and not any(True for _ in e.iter(WP + 'inline', WP + 'anchor')) and len(e) <= 1 and (len(e) == 0 or len(e[0]) == 0): continue
            if e.tag == W + 'sectPr':
                for k in (W + 'type',):
                    for y in e.findall(k): e.remove(y)
                for k in list(e.attrib): del e.attrib[k]
            for x in e.iter():
                for k in list(x.attrib):
                    if k in (R + 'id', R + 'embed', R + 'link'):
                        t = d.rels.get(x.get(k), x.get(k)); x.set(k, d.media.get('word/' + t, t))
                if x.tag == WP + 'docPr' or x.tag.endswith('}cNvPr'): x.attrib.clear()
            parts.append(etree.tostring(e))
        out.append(b'\n'.join(parts))
    return out


def differ(a, b):
    """where two canonical contents differ"""
    k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return a[max(0, k - 60):k + 60].decode('utf8', 'replace'), b[max(0, k - 60):k + 60].decode('utf8', 'replace')


def make(path, rng, n=None, rotate=True):
    doc = fitz.open()
    n = n or rng.choice([2, 3, 4])
    for i in range(n):
        k = rng.random()
        if k < .1: doc.new_page(width=rng.choice([300, 595]), height=rng.choice([400, 842])); continue      # blank
        p = rich_page(doc, rng, f'D{i}', kinds=KINDS, rotate=0)
        if rng.random() < .6: p.insert_text((50, 36), LONG, fontsize=8)        # crosses the middle: no layout of columns
        if rng.random() < .5: p.insert_text((72, p.rect.height - 40), 'a link at the end'); p.insert_link(dict(kind=2, uri='https://end.org/x', **{'from': fitz.Rect(72, p.rect.height - 50, 130, p.rect.height - 36)}))
        if rotate and rng.random() < .4: turn(doc, p, rng.choice([90, 180, 270]))
        elif rotate and rng.random() < .15: p.set_rotation(rng.choice([90, 180, 270]))
    doc.save(path); doc.close()
    return n


def alone(x):
    """every page alone gives the section it has in the whole document"""
    rng = x.rng('alone')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(14 * x.n):
            if x.left() < 0: break
            n = make(f('a.pdf'), rng)
            x.case('alone', (k,), dict(pages=n))
            kw = rng.choice([{}, {}, dict(line_free_space_ratio_threshold=.2), dict(page_margin_factor_top=.3)])
            convert(f('a.pdf'), f('a.docx'), kwargs=kw)
            whole = sections(f('a.docx'))
            if k % 7 == 3:
                convert(f('a.pdf'), f('w.docx'), kwargs=dict(kw, multi_processing=True, cpu_count=2))
                x.check(sections(f('w.docx')) == whole, 'alone-workers', 'pages shared between workers give the same', no=k, pages=n)
            if not x.check(len(whole) == n, 'sections', 'every page is a section', got=len(whole), pages=n, no=k): continue
            for i in range(n):
                how = rng.choice(['pages', 'split'])
                if how == 'pages': convert(f('a.pdf'), f('b.docx'), pages=[i], kwargs=kw)
                else:
                    one = fitz.open(f('a.pdf'))         # (not insert_pdf, which moves the links of turned pages)
                    one.select([i]); one.save(f('one.pdf')); one.close()
                    convert(f('one.pdf'), f('b.docx'), kwargs=kw)
                got = sections(f('b.docx'))
                x.check(len(got) == 1 and got[0] == whole[i], f'alone-{how}', 'a page converted alone is the same as within the document', page=i, of=n, no=k, differ=differ(got[0] if got else b'', whole[i]))


EXTREME = dict(clip_image_res_ratio=[1.0], curve_path_ratio=[0.0, .9], line_separate_threshold=[1.0, 50], connected_border_tolerance=[0.0, 3.0], extract_stream_table=[True], float_image_ignorable_gap=[0.0, 50],
    max_border_width=[.1, 30], min_border_clearance=[0.0, 20], float_layout_tolerance=[0.0, 1.0], page_margin_factor_top=[0.0, 1.0], page_margin_factor_bottom=[0.0, 1.0], shape_merging_threshold=[0.0, 1.0],
    shape_min_dimension=[0.0, 60, 400], line_overlap_threshold=[.1, 1.0], line_free_space_ratio_threshold=[0.0, .9], line_merging_threshold=[0.0, 30], lines_left_aligned_threshold=[0.0, 20], lines_right_aligned_threshold=[0.0, 20], lines_center_aligned_threshold=[0.0, 20])


def extreme(rng): return {k: rng.choice(EXTREME[k]) for k in rng.sample(sorted(EXTREME), rng.choice([1, 3, 19]))}


def history(x):
    """earlier conversions, in this process or with the same converter, have no effect"""
    from pdf2docx import Converter
    rng = x.rng('history')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(30 * x.n):
            if x.left() < 0: break
            n = make(f('a.pdf'), rng, rng.choice([1, 2])); make(f('o.pdf'), rng, rng.choice([1, 2]))
            code = 'import sys, os; sys.path[:0] = %r\nimport oldnames\nfrom pdf2docx import Converter\nc = Converter(%r); c.convert(%r); sys.stdout.flush(); os._exit(0)' % (sys.path[:6], f('a.pdf'), f('fresh.docx'))
            r = subprocess.run([sys.executable, '-c', code], capture_output=True, text=True)
            if r.returncode or not os.path.exists(f('fresh.docx')): raise RuntimeError(r.stderr[-300:])
            want = sections(f('fresh.docx'))
            steps = []
            cv = Converter(f('a.pdf'))
            try:
                with quiet():
                    for _ in range(rng.choice([1, 2, 3])):
                        s = rng.choice(['other', 'same', 'tables', 'settings', 'settings', 'store', 'restore', 'own', 'debug', 'open'])
                        steps.append(s)
                        if s == 'other': convert(f('o.pdf'), f('o.docx'))
                        elif s == 'same': cv.convert(f('x.docx'))
                        elif s == 'tables': cv.extract_tables()
                        elif s == 'settings': cv.convert(f('x.docx'), kwargs=extreme(rng))
                        elif s == 'store': cv.parse(); json.dumps(cv.store())
                        elif s == 'restore':
                            c2 = Converter(f('o.pdf')); c2.parse(); d = json.loads(json.dumps(c2.store())); c2.restore(d); c2.make_docx(f('x.docx')); c2.close()
                        elif s == 'own':
                            c2 = Converter(f('o.pdf')); c2.parse(); d = json.loads(json.dumps(c2.store())); c2.close()
                            d['pages'] = d['pages'][:n]; cv.restore(d)
                        elif s == 'debug': cv.debug_page(0, f('x.docx'), f('dbg.pdf'), f('l.json'))
                        elif s == 'open':
                            c2 = Converter(f('o.pdf')); c2.parse(); c2.make_docx(f('x.docx')); c2.close()
                    cv.convert(f('x.docx'))
            finally: cv.close()
            x.case('history', (k,), dict(steps=steps, pages=n))
            got = sections(f('x.docx'))
            x.check(len(got) == len(want), 'history-sections', 'as many sections as without the earlier conversions', got=len(got), want=len(want), steps=steps, no=k)
            for i, (a, b) in enumerate(zip(got, want)):
                x.check(a == b, 'history', 'earlier conversions have no effect', page=i, steps=steps, no=k, differ=differ(a, b))
            if os.path.exists(f('fresh.docx')): os.remove(f('fresh.docx'))


class Fault(Exception): pass


def errors(x):
    """an error in the midst of a page leaves no trace on the pages after it, nor on the next conversion"""
    rng = x.rng('errors')
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(10 * x.n):
            if x.left() < 0: break
            n = make(f('a.pdf'), rng, 3)
            convert(f('a.pdf'), f('a.docx'))
            want = sections(f('a.docx'))
            if len(want) != n: continue
            bad = rng.randrange(n)
            name = rng.choice(['get_pixmap', 'get_drawings', 'get_images', 'get_text', 'get_links'])
            old = [(c, m, getattr(c, m)) for c, m in ((fitz.Page, name), (fitz.Page, name.split('_')[0] + ''.join(w.capitalize() for w in name.split('_')[1:]))) if hasattr(c, m)]
            hit = [0]
            def faulty(real):
                def g(page, *a, **kw):
                    if page.number == bad and not page.parent.name.endswith('o.pdf'): hit[0] += 1; raise Fault('injected')
                    return real(page, *a, **kw)
                return g
            from pdf2docx import Converter
            cv = Converter(f('a.pdf'))
            try:
                for c, m, r in old: setattr(c, m, faulty(r))
                try:
                    with quiet(): cv.convert(f('b.docx'))
                finally:
                    for c, m, r in old: setattr(c, m, r)
                x.case('errors', (k,), dict(fault=name, page=bad, hit=hit[0]))
                got = sections(f('b.docx'))
                rest = [w for i, w in enumerate(want) if i != bad] if hit[0] else want
                if x.check(len(got) == len(rest), 'errors-sections', 'the other pages are there', got=len(got), fault=name, bad=bad, no=k):
                    for i, (a, b) in enumerate(zip(got, rest)): x.check(a == b, 'errors-rest', 'an error in one page leaves no trace on others', page=i, bad=bad, fault=name, no=k, differ=differ(a, b))
                with quiet(): cv.convert(f('c.docx'))
                got = sections(f('c.docx'))
                x.check(got == want, 'errors-again', 'the next conversion is complete again', bad=bad, fault=name, no=k, sections=len(got), differ=next((differ(a, b) for a, b in zip(got, want) if a != b), None))
            finally: cv.close()


def source(x):
    """the opened document is as before: text, drawings, rotation and rendering of its pages"""
    from pdf2docx import Converter
    rng = x.rng('source')
    def look(doc):
        return [(p.rotation, tuple(p.rect), p.get_text('rawdict')['blocks'].__repr__().__hash__(), len(p.get_drawings()), p.get_pixmap().samples) for p in doc]
    with scratch() as tmp:
        f = lambda n: os.path.join(tmp, n)
        for k in range(10 * x.n):
            if x.left() < 0: break
            n = make(f('a.pdf'), rng)
            cv = Converter(f('a.pdf'))
            try:
                doc = x.api(lambda: cv.fitz_doc)
                a = look(doc)
                x.case('source', (k,), dict(pages=n))
                with quiet(): cv.convert(f('a.docx')); cv.extract_tables()
                x.check(look(doc) == a, 'source', 'the opened document is as before the conversion', pages=n, no=k)
            finally: cv.close()
