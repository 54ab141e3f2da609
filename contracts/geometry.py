"""C15: geometric relations between layout elements"""
from pyvc.spec import *

E = 'common.Element:Element'


def elem(c, name, **k):
    El = c.mod('common.Element').Element
    return c.raw(El, bbox=c.rect(name, **k), _parent=None)


def overlap(a, b, i):
    """signed overlap of the extents of two boxes in direction i"""
    return Min(a[i + 2], b[i + 2]) - Max(a[i], b[i])
def ext(a, i): return a[i + 2] - a[i]


def aligned(axis):
    def body(c):
        a, b = elem(c, 'a'), elem(c, 'b')
        f = c.real('factor', 0, 1)
        boola, boolb = bool(a), bool(b)
        m = c.mod('common.Element').Element
        fn = m.vertically_align_with if axis == 0 else m.horizontally_align_with
        r = c.call(fn, a, b, f)
        s = c.call(fn, b, a, f)
        c.ensures('symmetric', Iff(r, s))
        if not (boola and boolb):
            c.ensures('nothing is aligned with an empty box', Not(r))
            return
        o, lim = overlap(a.bbox, b.bbox, axis), f * Min(ext(a.bbox, axis), ext(b.bbox, axis))
        c.ensures('aligned if the overlap reaches the factor', Implies(gt0(o - lim), r))
        c.ensures('aligned only if the overlap reaches the factor', Implies(r, ge(o, lim)))
        c.ensures('disjoint boxes are never aligned', Implies(r, ge(overlap(a.bbox, b.bbox, axis), 0)))
    return body


def gt0(x):
    """x >= 0 up to float noise"""
    return x >= 0 if sym() else x > TOL


@contract('C15', E + '.vertically_align_with')
def vertically_aligned(c): aligned(0)(c)


@contract('C15', E + '.horizontally_align_with')
def horizontally_aligned(c): aligned(1)(c)


@contract('C15', E + '.in_same_row')
def same_row(c):
    a, b = elem(c, 'a'), elem(c, 'b')
    ea, eb = bool(a), bool(b)
    m = c.mod('common.Element').Element
    r = c.call(m.in_same_row, a, b)
    if eb:
        A, B = a.bbox, b.bbox
        ca, cb = (A[1] + A[3]) / 2, (B[1] + B[3]) / 2
        c.ensures('same row only if each bottom is below the other centre', Implies(r, And(le(ca, B[3]), le(cb, A[3]))))
        c.ensures('same row if each bottom is below the other centre', Implies(And(gt0(B[3] - ca), gt0(A[3] - cb)), r))
        if ea: c.ensures('symmetric', Iff(r, c.call(m.in_same_row, b, a)))
    else: c.ensures('nothing is in the row of an empty box', Not(r))


def inter(a, b):
    ox, oy = overlap(a, b, 0), overlap(a, b, 1)
    return ox, oy, Max(ox, 0) * Max(oy, 0)


@contract('C15', E + '.contains', timeout=20)
def contains(c):
    a, b = elem(c, 'a'), elem(c, 'b')
    t = c.real('threshold', 0.01, 1)
    bboxa, bboxb = a.bbox, b.bbox
    r = c.call(c.mod('common.Element').Element.contains, a, b, t)
    ox, oy, ia = inter(a.bbox, b.bbox)
    area = ext(b.bbox, 0) * ext(b.bbox, 1)
    c.ensures('an empty box is not contained', Implies(area <= 0, Not(r)) if sym() else (not r if area <= 0 else True))
    empty_a = Or(ext(a.bbox, 0) <= 0, ext(a.bbox, 1) <= 0)
    if sym():
        q, ar = (a.bbox & b.bbox).get_area(), b.bbox.get_area()
        c.ensures('lemma: area of the intersection', Implies(And(Not(empty_a), area > 0), And(eq(q, ia), eq(ar, area))))
        if bool(area > 0): c.ensures('contained only if the given share of the box is covered', Implies(r, q / ar >= t - 0.0051))
    else: c.ensures('contained only if the given share of the box is covered', Implies(And(r, Not(empty_a)), ge(ia, (t - 0.0051) * area)))
    c.ensures('a box inside another is contained', Implies(And(ext(b.bbox, 0) > 0.001, ext(b.bbox, 1) > 0.001, b.bbox[0] >= a.bbox[0], b.bbox[1] >= a.bbox[1], b.bbox[2] <= a.bbox[2], b.bbox[3] <= a.bbox[3]), r))


@contract('C15', E + '.get_main_bbox', timeout=20)
def main_bbox(c):
    a, b = elem(c, 'a', nonempty=True), elem(c, 'b', nonempty=True)
    t = c.real('threshold', 0.01, 1)
    r = c.call(c.mod('common.Element').Element.get_main_bbox, a, b, t)
    ox, oy, ia = inter(a.bbox, b.bbox)
    small = Min(ext(a.bbox, 0) * ext(a.bbox, 1), ext(b.bbox, 0) * ext(b.bbox, 1))
    if r is None:
        c.ensures('no main box only if the overlap is below the threshold', le(ia, t * small))
    else:
        c.ensures('main box only if the overlap reaches the threshold of the smaller box', ge(ia, t * small))
        for i in (0, 1): c.ensures('the main box is the union', eq(r[i], Min(a.bbox[i], b.bbox[i])))
        for i in (2, 3): c.ensures('the main box is the union', eq(r[i], Max(a.bbox[i], b.bbox[i])))


@contract('C15', E + '.update_bbox')
def update_bbox(c):
    a = elem(c, 'a')
    b = c.rect('rect', valid=False)
    r = c.call(a.update_bbox, b)
    c.ensures('returns itself', same(r, a))
    for i in range(4): c.ensures('the box is the given one to 0.1 pt', Abs(a.bbox[i] - b[i]) <= 0.0501)


@contract('C15', E + '.union_bbox')
def union_bbox(c):
    a, b = elem(c, 'a', nonempty=True), elem(c, 'b', nonempty=True)
    A = [a.bbox[i] for i in range(4)]
    c.call(a.union_bbox, b)
    for i in (0, 1): c.ensures('encloses both', And(a.bbox[i] <= Min(A[i], b.bbox[i]) + 0.051, a.bbox[i] >= Min(A[i], b.bbox[i]) - 0.051))
    for i in (2, 3): c.ensures('encloses both', And(a.bbox[i] >= Max(A[i], b.bbox[i]) - 0.051, a.bbox[i] <= Max(A[i], b.bbox[i]) + 0.051))


@contract('C15', E + '.get_expand_bbox')
def expand(c):
    a = elem(c, 'a')
    d = c.real('dt', 0, 20)
    A = [a.bbox[i] for i in range(4)]
    r = c.call(a.get_expand_bbox, d)
    for i in (0, 1): c.ensures('moved outwards', Abs(r[i] - (A[i] - d)) <= 0.00001)
    for i in (2, 3): c.ensures('moved outwards', Abs(r[i] - (A[i] + d)) <= 0.00001)
    for i in range(4): c.ensures('the element keeps its box', eq(a.bbox[i], A[i]))


@contract('C15', E + '.in_same_row')
def same_row_directions(c):
    """lines: same row exactly if the directions agree and the centre lines are within, along the axis across the text"""
    L = c.mod('text.Line').Line
    D = {'h': [1.0, 0.0], 'v': [0.0, -1.0]}
    da, db = c.choice('direction of a', ['h', 'v']), c.choice('direction of b', ['h', 'v'])
    a = c.raw(L, bbox=c.rect('a', nonempty=True), dir=D[da])
    b = c.raw(L, bbox=c.rect('b', nonempty=True), dir=D[db])
    r = c.call(a.in_same_row, b)
    if da != db: c.ensures('lines of different direction are never in the same row', Not(r))
    else:
        i = 1 if da == 'h' else 0
        ca, cb = (a.bbox[i] + a.bbox[i + 2]) / 2, (b.bbox[i] + b.bbox[i + 2]) / 2
        c.ensures('same row only if each bottom is below the other centre', Implies(r, And(le(ca, b.bbox[i + 2]), le(cb, a.bbox[i + 2]))))
        c.ensures('same row if each bottom is below the other centre', Implies(And(gt0(b.bbox[i + 2] - ca), gt0(a.bbox[i + 2] - cb)), r))
