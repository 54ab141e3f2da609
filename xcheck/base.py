"""Common cross-checks and helpers."""
import os, sys


def rect_model(x):
    """the model of fitz.Rect used by the proofs agrees with the real class"""
    import fitz
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from pyvc import core
    from pyvc.values import MRect
    from pyvc.core import Num, B
    import z3
    rng = x.rng('rect')
    def num(v):
        if isinstance(v, Num): v = v.const()
        if isinstance(v, B): v = z3.is_true(z3.simplify(v.t))
        return v
    def same(a, b):
        if isinstance(b, fitz.Rect): return all(abs(num(p) - q) < 1e-4 for p, q in zip(a.c, b))
        if isinstance(b, bool): return num(a) == b
        return abs(num(a) - b) < 1e-3
    def co(): return rng.choice([rng.randint(-3, 8), round(rng.uniform(-3, 8), 1)])
    for _ in range(150):
        p, q = [co() for _ in range(4)], [co() for _ in range(4)]
        if rng.random() < .7: p = [min(p[0], p[2]), min(p[1], p[3]), max(p[0], p[2]), max(p[1], p[3])]
        if rng.random() < .7: q = [min(q[0], q[2]), min(q[1], q[3]), max(q[0], q[2]), max(q[1], q[3])]
        if rng.random() < .2: q[2] = q[0]
        a, b, m, n = fitz.Rect(p), fitz.Rect(q), MRect(*p), MRect(*q)
        ops = [('and', lambda u, v: u & v), ('or', lambda u, v: u | v), ('width', lambda u, v: u.width), ('area', lambda u, v: u.get_area()),
               ('valid', lambda u, v: u.is_valid), ('empty', lambda u, v: u.is_empty), ('contains', lambda u, v: u.contains(v)),
               ('intersects', lambda u, v: u.intersects(v)), ('bool', lambda u, v: bool(u)), ('add', lambda u, v: u + (-1, -1, 1, 1)), ('eq', lambda u, v: u == v)]
        for name, f in ops:
            if not same(f(m, n), f(a, b)): raise RuntimeError(f'rect model differs: {name} {p} {q}')
    x.parts['rect model comparisons'] = 150 * 11
