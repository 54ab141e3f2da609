"""C15: relations between boxes, against their definitions"""
RULE = 'one case = one pair of boxes; distinct = different pairs / parameters'
PARTS = ['pairs', 'lines', 'recorded']
E = 2e-4


def box(rng, m=12):
    k = rng.random()
    def c(): return rng.choice([rng.randint(0, m), round(rng.uniform(0, m), 1)])
    a, b = sorted([c(), c()]), sorted([c(), c()])
    if k < .85:
        if a[0] == a[1]: a[1] = a[0] + 1
        if b[0] == b[1]: b[1] = b[0] + .5
    return (a[0], b[0], a[1], b[1])


def related(rng, a):
    """a box in an interesting position to a"""
    k = rng.random()
    if k < .3: return box(rng)
    if k < .4: return a
    d = lambda: rng.choice([0, 0, .1, -.1, .5, 1, -1, 2])
    b = [v + d() for v in a]
    if rng.random() < .4:
        ax = rng.choice([0, 1])
        s = rng.choice([a[ax + 2] - a[ax], a[ax + 2] - a[ax] + .1, (a[ax + 2] - a[ax]) / 2])
        b = list(a); b[ax] += s; b[ax + 2] += s
    if b[2] <= b[0]: b[2] = b[0] + .5
    if b[3] <= b[1]: b[3] = b[1] + .5
    return tuple(round(v, 1) for v in b)


def ov(a, b, d): return min(a[d + 2], b[d + 2]) - max(a[d], b[d])
def area(a): return (a[2] - a[0]) * (a[3] - a[1])


def pairs(x):
    from pdf2docx.common.Element import Element
    rng = x.rng('pairs')
    for k in range(5000 * x.n):
        a = box(rng); b = related(rng, a)
        ea, eb = Element().update_bbox(a), Element().update_bbox(b)
        a, b = tuple(ea.bbox), tuple(eb.bbox)
        f, t = rng.choice([0, 0, .01, .1, .5, .9, .95, 1]), rng.choice([.1, .5, .75, .9, .95, .99, 1])
        info = dict(a=a, b=b, factor=f, threshold=t)
        x.case('pairs', (a, b, f, t), info)
        flat = not any(a) or not any(b)
        for d, name in ((0, 'vertically_align_with'), (1, 'horizontally_align_with')):
            r, s = getattr(ea, name)(eb, factor=f), getattr(eb, name)(ea, factor=f)
            x.check(bool(r) == bool(s), 'align', 'alignment is symmetric', relation=name, **info)
            o, lim = ov(a, b, d), f * min(a[d + 2] - a[d], b[d + 2] - b[d])
            if flat: continue
            if o > lim + E: x.check(r, 'align', 'boxes whose overlap exceeds the factor of the shorter extent are aligned', relation=name, **info)
            if o < lim - E: x.check(not r, 'align', 'boxes whose overlap is below the factor of the shorter extent are not aligned', relation=name, **info)
        r, s = ea.in_same_row(eb), eb.in_same_row(ea)
        if not flat:
            x.check(bool(r) == bool(s), 'row', 'being in the same row is symmetric', **info)
            ca, cb = (a[1] + a[3]) / 2, (b[1] + b[3]) / 2
            if ca < b[3] - E and cb < a[3] - E: x.check(r, 'row', 'same row if neither centre is below the bottom of the other', **info)
            if ca > b[3] + E or cb > a[3] + E: x.check(not r, 'row', 'not in the same row if a centre is below the bottom of the other', **info)
        full = area(a) > 0 and area(b) > 0
        if not full: continue
        ia = max(ov(a, b, 0), 0) * max(ov(a, b, 1), 0)
        c = ea.contains(eb, t)
        if ia / area(b) < t - .006: x.check(not c, 'contains', 'a box is contained only if the given share is covered', **info)
        if ov(a, b, 0) < -E or ov(a, b, 1) < -E: x.check(not c, 'contains', 'a disjoint box is not contained', **info)
        if a[0] <= b[0] and a[1] <= b[1] and a[2] >= b[2] and a[3] >= b[3]: x.check(c, 'contains', 'a box inside another is contained', **info)
        m = ea.get_main_bbox(eb, t)
        m2 = eb.get_main_bbox(ea, t)
        q = ia / min(area(a), area(b))
        if q > t + E: x.check(m is not None, 'main', 'merged if the intersection reaches the threshold of the smaller box', **info)
        if q < t - E: x.check(m is None, 'main', 'not merged if the intersection is below the threshold of the smaller box', **info)
        x.check((m is None) == (m2 is None), 'main', 'merging is symmetric', **info)
        if m is not None:
            u = (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]))
            x.check(all(abs(p - q) < E for p, q in zip(m, u)), 'main', 'the merged box is the union', got=tuple(m), **info)
        x.check(tuple(ea.bbox) == a and tuple(eb.bbox) == b, 'pure', 'relations do not change the boxes', **info)


def lines(x):
    """the same for text lines of both directions: extents along / across the reading direction"""
    from pdf2docx.text.Line import Line
    rng = x.rng('lines')
    def line(b, vert):
        l = Line({'dir': (0.0, -1.0) if vert else (1.0, 0.0)})
        return l.update_bbox(b)
    x.api(lambda: line((0, 0, 1, 1), True).in_same_row(line((0, 0, 1, 1), False)))
    for k in range(1500 * x.n):
        a = box(rng); b = related(rng, a)
        if area(a) <= 0 or area(b) <= 0: continue
        va, vb = rng.random() < .5, rng.random() < .5
        if rng.random() < .7: vb = va
        la, lb = line(a, va), line(b, vb)
        a, b = tuple(la.bbox), tuple(lb.bbox)
        f = rng.choice([0, .1, .5, .95])
        info = dict(a=a, b=b, vertical=[va, vb], factor=f)
        x.case('lines', (a, b, va, vb), info)
        r = la.in_same_row(lb)
        if va != vb: x.check(not r, 'row', 'lines of different text direction are not in the same row', **info)
        else:
            i = 0 if va else 1
            ca, cb = (a[i] + a[i + 2]) / 2, (b[i] + b[i + 2]) / 2
            if ca < b[i + 2] - E and cb < a[i + 2] - E: x.check(r, 'row', 'same row if neither centre is beyond the bottom of the other', **info)
            if ca > b[i + 2] + E or cb > a[i + 2] + E: x.check(not r, 'row', 'not in the same row if a centre is beyond the bottom of the other', **info)
            for name, d in (('vertically_align_with', 1 if va else 0), ('horizontally_align_with', 0 if va else 1)):
                o, lim = ov(a, b, d), f * min(a[d + 2] - a[d], b[d + 2] - b[d])
                if abs(o - lim) > E: x.check(bool(getattr(la, name)(lb, factor=f)) == (o > lim), 'align', 'alignment follows the text direction', relation=name, **info)
                d2 = 0 if name[0] == 'v' else 1
                o, lim = ov(a, b, d2), f * min(a[d2 + 2] - a[d2], b[d2 + 2] - b[d2])
                if abs(o - lim) > E: x.check(bool(getattr(la, name)(lb, factor=f, text_direction=False)) == (o > lim), 'align', 'alignment without text direction', relation=name, **info)


def recorded(x):
    """boxes are recorded to 0.1, also after unions, and never lose an element"""
    from pdf2docx.common.Element import Element
    rng = x.rng('rec')
    for k in range(1500 * x.n):
        b = [rng.uniform(0, 500) for _ in range(4)]
        b = [min(b[0], b[2]), min(b[1], b[3]), max(b[0], b[2]) + 1, max(b[1], b[3]) + 1]
        e = Element().update_bbox(b)
        x.case('recorded', tuple(b))
        x.check(all(abs(p - q) <= .0501 for p, q in zip(e.bbox, b)) and all(abs(v * 10 - round(v * 10)) < 2e-3 for v in e.bbox), 'rounded', 'a box is recorded to 0.1 pt', given=b, got=tuple(e.bbox))
        o = Element().update_bbox([v + rng.uniform(-50, 50) if i < 2 else v + rng.uniform(50, 90) for i, v in enumerate(b)])
        u = Element().update_bbox(b).union_bbox(o)
        x.check(all(abs(p - q) <= .0501 for p, q in zip(u.bbox, [min(e.bbox[0], o.bbox[0]), min(e.bbox[1], o.bbox[1]), max(e.bbox[2], o.bbox[2]), max(e.bbox[3], o.bbox[3])])), 'union', 'the union encloses both boxes', a=tuple(e.bbox), b=tuple(o.bbox), got=tuple(u.bbox))
        d = rng.choice([0, .5, 1, 5])
        z = e.get_expand_bbox(d)
        x.check(all(abs(z[i] - (e.bbox[i] + (-d if i < 2 else d))) < E for i in range(4)), 'expand', 'the enlarged box', box=tuple(e.bbox), margin=d, got=tuple(z))
