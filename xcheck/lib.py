"""Helpers of the cross-checks: PDF builders, reader of docx files."""
import os, sys, tempfile, shutil, contextlib, io, zipfile, hashlib
import fitz
from lxml import etree
W = '{http://schemas.openxmlformats.org/wordprocessingml/2006/main}'
R = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'
WP = '{http://schemas.openxmlformats.org/drawingml/2006/wordprocessingDrawing}'
A = '{http://schemas.openxmlformats.org/drawingml/2006/main}'


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='xc-')
    try: yield d
    finally: shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()): yield


def word(rng, n=None):
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(n or rng.randint(2, 9)))


def sentence(rng, n): return ' '.join(word(rng) for _ in range(n))


def marker_pdf(path, n, table=False):
    """n pages, page i with the text PAGEiX and, optionally, a small ruled table with the text TABLEiX"""
    doc = fitz.open()
    for i in range(n):
        p = doc.new_page(width=300 + 10 * i, height=400)
        p.insert_text((72, 100), f'PAGE{i}X')
        if table:
            for r in range(3): p.draw_line((72, 150 + 30 * r), (232, 150 + 30 * r))
            for c in range(3): p.draw_line((72 + 80 * c, 150), (72 + 80 * c, 210))
            p.insert_text((80, 170), f'TABLE{i}X')
    doc.save(path); doc.close()


def fhash(p):
    with open(p, 'rb') as f: return hashlib.sha256(f.read()).hexdigest()


def tree(d):
    """content hashes of all files below a folder"""
    out = {}
    for b, _, fs in os.walk(d):
        for f in fs: out[os.path.relpath(os.path.join(b, f), d)] = fhash(os.path.join(b, f))
    return out


class Docx:
    """content of a docx file"""
    def __init__(self, path):
        with zipfile.ZipFile(path) as z:
            self.names = z.namelist()
            self.doc = etree.fromstring(z.read('word/document.xml'))
            rels = etree.fromstring(z.read('word/_rels/document.xml.rels'))
            self.rels = {r.get('Id'): r.get('Target') for r in rels}
            self.media = {n: hashlib.sha256(z.read(n)).hexdigest() for n in self.names if n.startswith('word/media/')}
        self.body = self.doc.find(W + 'body')

    def sections(self):
        """list of (section properties element, list of top level elements)"""
        out, cur = [], []
        for e in self.body:
            if e.tag == W + 'sectPr': out.append((e, cur)); cur = []; continue
            cur.append(e)
            s = e.find(f'{W}pPr/{W}sectPr')
            if s is not None: out.append((s, cur)); cur = []
        return out

    def texts(self):
        """text of every section"""
        return [''.join(t for e in es for t in text_of(e)) for _, es in self.sections()]

    def canon(self):
        """document content with relationship ids replaced by their targets (media by content)"""
        import copy
        d = copy.deepcopy(self.body)
        def target(i):
            t = self.rels.get(i, i)
            return self.media.get('word/' + t, t)
        for e in d.iter():
            for k in list(e.attrib):
                if k in (R + 'id', R + 'embed', R + 'link'): e.set(k, target(e.get(k)))
            if e.tag == WP + 'docPr': e.set('id', '0'); e.set('name', '')
        return etree.tostring(d)


def text_of(e):
    for t in e.iter(W + 't', W + 'tab', W + 'br'):
        if t.tag == W + 't': yield t.text or ''
        else: yield '' if t.tag == W + 'tab' else '\n'


def same_docx(a, b):
    return Docx(a).canon() == Docx(b).canon()


def convert(pdf, docx, **kw):
    from pdf2docx import Converter
    cv = Converter(pdf)
    try:
        with quiet(): cv.convert(docx, **kw)
    finally: cv.close()
    return docx
