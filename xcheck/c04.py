"""C04: docx from stored and restored layout = docx from the parsed layout"""
import os, json, glob, random, time
from .lib import *
from . import pdfs
RULE = 'one case = one document converted directly and through stored data; distinct = different documents / load histories'
PARTS = ['roundtrip', 'varied', 'samples']


def direct(cv, d):
    with quiet(): cv.make_docx(d)
    return Docx(d).canon()


def diff(a, b):
    k = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), min(len(a), len(b)))
    return dict(direct=a[max(0, k - 200):k + 150].decode('utf8', 'replace'), restored=b[max(0, k - 200):k + 150].decode('utf8', 'replace'))


def one(x, rng, pdf, tmp, what, npages, part='roundtrip'):
    from pdf2docx import Converter
    cv = Converter(pdf)
    d, j = os.path.join(tmp, 'd.docx'), os.path.join(tmp, 'd.json')
    try:
        sel = None if npages < 2 or rng.random() < .5 else sorted(rng.sample(range(npages), rng.randint(1, npages)))
        with quiet(): cv.parse(sel, {})
        if not any(p.finalized for p in cv): return
        how = rng.choice(['data', 'json', 'file'])
        if rng.random() < .5:     # stored after the docx was written, or before
            want = direct(cv, d); data = cv.store(); cv.serialize(j)
        else:
            data = cv.store(); cv.serialize(j); data = json.loads(json.dumps(data)) if how != 'data' else data; want = direct(cv, d)
        x.check(direct(cv, d) == want, 'again', 'writing twice gives the same docx', document=what)
        hist = rng.choice(['fresh', 'fresh', 'twice', 'parsed before', 'same converter', 'other page parsed after'])
        x.case(part, (what, str(sel), how, hist), dict(document=what, selection=sel, how=how, history=hist))
        b = cv if hist == 'same converter' else Converter(pdf)
        if hist == 'parsed before':
            with quiet(): b.parse(sel, {})
        elif hist == 'other page parsed after':
            # rotation of pages parsed before must not matter
            with quiet(): b.parse([npages - 1], {})
            if sel is not None and npages - 1 not in sel: b._ignore_parsed_pages() if hasattr(b, '_ignore_parsed_pages') else None
        for _ in range(2 if hist == 'twice' else 1):
            if how == 'data': b.restore(json.loads(json.dumps(data)))
            elif how == 'json': b.restore(json.loads(json.dumps(data)))
            else: b.deserialize(j)
        got = direct(b, d)
        x.check(got == want, 'differs', 'docx of the restored layout equals the docx of the parsed layout', document=what, selection=sel, history=hist, **(diff(want, got) if got != want else {}))
        if b is not cv: b.close()
    finally: cv.close()


def roundtrip(x):
    rng = x.rng('rt')
    t0 = time.time()
    with scratch() as tmp:
        for k in range(60 * x.n):
            if time.time() - t0 > (22 if x.tier == 'quick' else 300): break
            pdf = os.path.join(tmp, 'r.pdf')
            n = rng.choice([1, 1, 2])
            seed = f'{x.seed}:c04:{k}'
            pdfs.rich_pdf(pdf, random.Random(seed), n)
            one(x, rng, pdf, tmp, f'xcheck.pdfs.rich_pdf(random.Random({seed!r}), {n})', n)


def marked(p, rng):
    """rows of text with several marks on the same characters"""
    y = 60
    for row in range(rng.randint(3, 8)):
        t = ' '.join(word(rng, rng.randint(3, 8)) for _ in range(6))[:48]
        p.insert_text((72, y), t, fontname='cour', fontsize=10)
        for kind in rng.sample(['underline', 'strike', 'area', 'link'], rng.randint(0, 4)):
            i, j = sorted(rng.sample(range(len(t) + 1), 2)); a, b = 72 + 6 * i, 72 + 6 * j
            f = (rng.random(), rng.random(), rng.random())
            if kind == 'underline': p.draw_rect((a, y + 1, b, y + 1.6), color=None, fill=f)
            elif kind == 'strike': p.draw_rect((a, y - 3, b, y - 2.4), color=None, fill=f)
            elif kind == 'area': p.draw_rect((a, y - 7, b, y + 2.5), color=None, fill=f, overlay=False)
            else: p.insert_link(dict(kind=2, uri=f'https://{word(rng)}.org/?a=1&b={word(rng)}#c', **{'from': fitz.Rect(a, y - 7, b, y + 2.5)}))
        y += rng.choice([14, 30])


def varied(x):
    """pages of one kind of content in many forms: marks, ruled tables, pictures, alignments, columns"""
    from . import c05, c10, c12
    rng = x.rng('varied')
    t0 = time.time()
    with scratch() as tmp:
        for k in range(50 * x.n):
            if time.time() - t0 > (20 if x.tier == 'quick' else 200): break
            doc = fitz.open(); kinds = []
            for _ in range(rng.choice([1, 1, 2])):
                kind = rng.choice(['marks', 'marks', 'grids', 'pictures', 'rows', 'columns', 'vertical']); kinds.append(kind)
                p = doc.new_page(width=595, height=842)
                if kind == 'marks': marked(p, rng)
                elif kind == 'grids':
                    y = 60
                    for _ in range(rng.randint(1, 3)):
                        g = c05.Grid(rng, 60, y, cw=(45, 80)); g.draw(p, rng); y = g.ys[-1] + 30
                        if y > 600: break
                elif kind == 'pictures': c10.draw_page(p, rng, k)
                elif kind == 'vertical':
                    for i in range(rng.randint(1, 5)): p.insert_text((100 + 60 * i, rng.choice([300, 450])), sentence(rng, 4), fontsize=10, rotate=rng.choice([90, 90, 270]))
                else:
                    used = set()
                    for c in range(2 if kind == 'columns' else 1):
                        y = 60
                        while y < 650:
                            r = c12.draw(p, rng, used, 60 + 260 * c, y, 220 if kind == 'columns' else 460)
                            if r is None: break
                            y = r[1]
                if rng.random() < .25: p.set_rotation(rng.choice([90, 180, 270]))
            pdf = os.path.join(tmp, 'v.pdf'); n = len(doc)
            doc.save(pdf); doc.close()
            one(x, rng, pdf, tmp, f'varied {k}: {kinds}', n, 'varied')


def samples(x):
    from .run import REPO
    rng = x.rng('samples')
    t0 = time.time()
    fs = sorted(glob.glob(REPO + '/test/samples/*.pdf'))
    with scratch() as tmp:
        for f in rng.sample(fs, len(fs)):
            if time.time() - t0 > (16 if x.tier == 'quick' else 200): break
            n = len(fitz.open(f))
            if n > 3: continue
            one(x, rng, f, tmp, os.path.basename(f), n, 'samples')
