"""C03: the files a conversion leaves behind"""
import os, shutil
from .lib import *
from .c01 import InlinePool
from .c02 import Faults
RULE = 'one case = one conversion in a folder with other files; distinct = different (file names, target, workers, failing pages)'
PARTS = ['files', 'processes']

NAMES = ['a.pdf', 'A.PDF', 'b.c.pdf', 'x.Pdf', 'noext', 'my doc.pdf', 'pdf.pdf', 'report.pdf.pdf', 'v1.pdf.bak', 'docx', 'pdf', '.hidden', 'r.docx.pdf', 'archive.tar.pdf', 'apdf', 'pages.pdf']


def default_target(path):
    b, e = os.path.splitext(path)
    return b + '.docx'


def setting(rng, tmp, k):
    d = os.path.join(tmp, f'd{k}')
    os.makedirs(os.path.join(d, 'sub'))
    if rng.random() < .25: os.makedirs(os.path.join(d, 'x.pdf.d')); base = os.path.join(d, 'x.pdf.d')
    else: base = d
    pdf = os.path.join(base, rng.choice(NAMES))
    n = rng.randint(1, 3)
    marker_pdf(pdf, n)
    others = ['pages-0.json', 'pages-1.json', 'pages.json', 'layout.json', 'notes.txt', 'sub/pages-0.json', 'other.docx', 'a.docx', 'b.docx', 'b.c.docx', 'tmp.json', 'A.docx', 'report.docx', 'x.docx', 'noext.docx', 'debug_a.pdf']
    for o in others:
        for r in {d, base}:
            p = os.path.join(r, o)
            if rng.random() < .6 and os.path.isdir(os.path.dirname(p)) and not os.path.exists(p):
                with open(p, 'w') as f: f.write(f'{o} {k}')
    return d, pdf, n


def run_one(x, m, rng, tmp, k, F, mp, key):
    d, pdf, n = setting(rng, tmp, k)
    explicit = rng.random() < .5
    target = os.path.join(d, rng.choice(['out.docx', 'other.docx', 'sub/out.docx', 'out', 'OUT.DOCX', 'pdf.docx.docx'])) if explicit else None
    want = target or default_target(pdf)
    fail = {i for i in range(n) if rng.random() < .3} if rng.random() < .5 else set()
    if rng.random() < .15: fail = set(range(n))
    if F: F.analysis, F.place = fail, 'layout'
    else: fail = set()
    if rng.random() < .3 and not os.path.exists(want):
        with open(want, 'w') as f: f.write('old')
    before = tree(d)
    had = os.path.exists(want)
    cwd = os.getcwd()
    os.chdir(d)
    rel = rng.random() < .4
    src = os.path.relpath(pdf, d) if rel else pdf
    info = dict(pdf=os.path.relpath(pdf, d), target=target and os.path.relpath(target, d), pages=n, failing=sorted(fail), workers=mp, relative=rel, files=sorted(before))
    x.case(key, (info['pdf'], info['target'], n, tuple(sorted(fail)), mp, rel), info)
    raised = None
    try:
        cv = m.Converter(src)
        try:
            with quiet(): cv.convert(target and (os.path.relpath(target, d) if rel else target), kwargs=dict(multi_processing=True, cpu_count=mp) if mp else None)
        finally: cv.close()
    except Exception as e: raised = e
    finally: os.chdir(cwd)
    after = tree(d)
    w = os.path.relpath(want, d)
    dst = [f for f in after if f != w and after[f] != before.get(f)]
    x.check(not dst, 'changed', 'no file but the requested docx is created or changed', changed=dst, **info)
    gone = [f for f in before if f not in after]
    x.check(not gone, 'removed', 'no file is removed', removed=gone, **info)
    if fail == set(range(n)):
        x.check(raised is not None, 'silent', 'an error is raised when no page could be parsed', **info)
        x.check(after.get(w) == before.get(w), 'lost', 'an existing docx is untouched when no page could be parsed', existed=had, **info)
    else:
        ok = raised is None and w in after and zipfile.is_zipfile(os.path.join(d, w))
        x.check(ok, 'missing', f'the requested docx is written ({raised})', **info)
        if ok:
            t = ''.join(Docx(os.path.join(d, w)).texts())
            x.check(all((f'PAGE{i}X' in t) == (i not in fail) for i in range(n)), 'content', 'the docx holds the parsed pages', **info)
    shutil.rmtree(d, ignore_errors=True)


def files(x):
    import pdf2docx.converter as m
    rng = x.rng('files')
    F = x.api(lambda: Faults(x))
    P = getattr(m, 'Pool', None)
    if P: m.Pool = InlinePool
    try:
        with scratch() as tmp:
            for k in range(70 * x.n):
                run_one(x, m, rng, tmp, k, F, rng.choice([0, 0, 2, 3]) if P else 0, 'files')
                if x.left() < 20: break
    finally:
        F.close()
        if P: m.Pool = P


def processes(x):
    import pdf2docx.converter as m
    rng = x.rng('processes')
    with scratch() as tmp:
        for k in range(3 * x.n): run_one(x, m, rng, tmp, k, None, rng.choice([1, 2, 3]), 'processes')
