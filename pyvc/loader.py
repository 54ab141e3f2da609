"""Imports pdf2docx from /repo with every function mechanically transformed (transform.py)
and fitz.Rect replaced by its model."""
import sys, os, types, importlib.abc, importlib.util, importlib.machinery
sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup_path():
    for p in (REPO, '/opt/vp/compat'):
        if p not in sys.path: sys.path.insert(0, p)
    if VT not in sys.path: sys.path.append(VT)


setup_path()
import oldnames  # noqa
import fitz
SOURCES = {}


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        from .transform import transform
        path = self.get_filename(fullname)
        src = open(path, encoding='utf-8').read()
        SOURCES[fullname] = src
        return transform(src, fullname, path)

    def exec_module(self, module):
        from .runtime import SHADOW, _vc, _locals
        g = module.__dict__
        g.update(SHADOW)
        g['_vc'], g['_locals'], g['_vc_module'] = _vc, _locals, True
        exec(self.get_code(module.__name__), g)
        import collections
        from .runtime import v_deque, v_pt, v_rgb
        import docx.shared
        for k, v in list(g.items()):
            if v is collections.deque: g[k] = v_deque
            elif v is docx.shared.Pt: g[k] = v_pt
            elif v is docx.shared.RGBColor: g[k] = v_rgb


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'pdf2docx' and not fullname.startswith('pdf2docx.'): return None
        rel = os.path.join(REPO, *fullname.split('.'))
        if os.path.isdir(rel): f, pkg = os.path.join(rel, '__init__.py'), [rel]
        else: f, pkg = rel + '.py', None
        if not os.path.exists(f): return None
        return importlib.util.spec_from_file_location(fullname, f, loader=Loader(fullname, f), submodule_search_locations=pkg)


def model_fitz():
    from .values import MRect, MPoint
    m = types.ModuleType('fitz')
    for k in dir(fitz):
        if not k.startswith('__'): setattr(m, k, getattr(fitz, k))
    m.Rect, m.Point = MRect, MPoint
    m.utils = fitz.utils
    m.__path__ = []
    return m


def load():
    """transformed pdf2docx package"""
    if any(k == 'pdf2docx' or k.startswith('pdf2docx.') for k in sys.modules): raise RuntimeError('pdf2docx already imported')
    real, realutils = sys.modules['fitz'], sys.modules['fitz.utils']
    sys.modules['fitz'] = model_fitz()
    sys.meta_path.insert(0, Finder())
    try:
        import pdf2docx, pdf2docx.converter, pdf2docx.main  # noqa
    finally:
        sys.modules['fitz'] = real
    return pdf2docx
