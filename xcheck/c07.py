"""C07: groups = connected components, against brute force"""
import fitz
RULE = 'one case = one collection grouped; distinct = different element lists'
PARTS = ['connectivity', 'relation', 'chains']
EPS = 1e-6


def comps(n, rel):
    lab = list(range(n))
    def find(a):
        while lab[a] != a: a = lab[a]
        return a
    for i in range(n):
        for j in range(i + 1, n):
            if rel(i, j): lab[find(i)] = find(j)
    return [find(i) for i in range(n)]


def elements(x, boxes):
    from pdf2docx.common.Element import Element
    return [Element().update_bbox(b) for b in boxes]


def judge(x, key, items, groups, must, may, info):
    """must/may: component labels of the smallest / largest relation"""
    pos = {id(e): i for i, e in enumerate(items)}
    got = [[pos.get(id(e)) for e in g] for g in groups]
    flat = [i for g in got for i in g]
    ok = x.check(None not in flat and sorted(flat) == list(range(len(items))), key, 'every element is in exactly one group', groups=got, **info)
    if not ok: return
    where = {i: k for k, g in enumerate(got) for i in g}
    x.check(all(g for g in got), key, 'no group is empty', groups=got, **info)
    for i in range(len(items)):
        for j in range(i):
            if must[i] == must[j] and where[i] != where[j]:
                x.fail(key, 'elements linked by a chain of related elements are in the same group', elements=[j, i], groups=got, **info); return
            if may[i] != may[j] and where[i] == where[j]:
                x.fail(key, 'elements in the same group are linked by a chain of related elements', elements=[j, i], groups=got, **info); return


def boxes(rng, n, m):
    out = []
    for _ in range(n):
        k = rng.random()
        if k < .3: w, h = rng.randint(1, 4), rng.randint(1, 4)
        elif k < .6: w, h = rng.randint(2, m), .5
        elif k < .9: w, h = .5, rng.randint(2, m)
        else: w, h = rng.randint(1, m), rng.randint(1, m)
        if rng.random() < .5: x, y = rng.randint(0, m), rng.randint(0, m)
        else: x, y = round(rng.uniform(0, m), 1), round(rng.uniform(0, m), 1)
        out.append((x, y, x + w, y + h))
    return out


def by_connectivity(x, coll, items, bs, dx, dy, key, info):
    def inter(i, j, e):
        a, b = items[i].bbox, items[j].bbox
        return all(min(a[d + 2], b[d + 2]) + 2 * t - max(a[d], b[d]) > e for d, t in ((0, dx), (1, dy)))
    n = len(items)
    judge(x, key, items, coll.group_by_connectivity(dx, dy), comps(n, lambda i, j: inter(i, j, EPS)), comps(n, lambda i, j: inter(i, j, -EPS)), info)


def connectivity(x):
    from pdf2docx.common.Collection import BaseCollection, Collection
    from pdf2docx.shape.Shapes import Shapes
    from pdf2docx.shape.Shape import Fill
    rng = x.rng('conn')
    x.api(lambda: BaseCollection(elements(x, [(0, 0, 1, 1), (2, 2, 3, 3)])).group_by_connectivity(0.5, 0.5))
    for k in range(500 * x.n):
        n = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 40])
        bs = boxes(rng, n, rng.choice([4, 8, 20, 60]))
        if rng.random() < .2: bs = [(b[1], b[0], b[3], b[2]) for b in bs]
        if rng.random() < .2: bs += [rng.choice(bs) for _ in range(2)]
        dx, dy = rng.choice([0, 0, .5, 1, 2, .3]), rng.choice([0, 0, .5, 1, 2, .3])
        if rng.random() < .1: dx = dy = -.2
        items = elements(x, bs)
        x.case('connectivity', (bs, dx, dy), dict(boxes=bs[:5], dx=dx, dy=dy))
        cls = rng.choice([BaseCollection, Collection])
        by_connectivity(x, cls(items), items, bs, dx, dy, 'connectivity', dict(boxes=bs, dx=dx, dy=dy))
    # larger collections of another class, and none
    x.check(list(BaseCollection([]).group_by_connectivity(1, 1)) == [], 'connectivity', 'no element, no group')
    for k in range(6 * x.n):
        bs = boxes(rng, 120, 200)
        items = [Fill({'bbox': b, 'color': 0}) for b in bs]
        x.case('connectivity', (k, 'shapes'))
        by_connectivity(x, Shapes(items), items, bs, .5, .5, 'connectivity', dict(boxes=bs, dx=.5, dy=.5))


def relation(x):
    from pdf2docx.common.Collection import BaseCollection
    rng = x.rng('rel')
    for k in range(300 * x.n):
        n = rng.randint(0, 14)
        items = elements(x, [(i, 0, i + 1, 1) for i in range(n)])
        p = rng.choice([.05, .1, .15, .3])
        R = {(i, j) for i in range(n) for j in range(i) if rng.random() < p}
        pos = {id(e): i for i, e in enumerate(items)}
        def fun(a, b): i, j = pos[id(a)], pos[id(b)]; return (i, j) in R or (j, i) in R
        groups = BaseCollection(items).group(fun)
        l = comps(n, lambda i, j: (i, j) in R or (j, i) in R)
        x.case('relation', (n, sorted(R)), dict(elements=n, related=sorted(R)[:8]))
        judge(x, 'relation', items, groups, l, l, dict(elements=n, related=sorted(R)))


def chains(x):
    """long chains, stars and combs in shuffled order"""
    from pdf2docx.common.Collection import BaseCollection
    rng = x.rng('chains')
    for k in range(60 * x.n):
        n, m = rng.randint(3, 60), rng.randint(1, 3)
        bs = []
        for c in range(m):
            y = 40 * c
            kind = rng.choice(['row', 'stairs', 'comb', 'spiral'])
            if kind == 'row': bs += [(4 * i, y, 4 * i + 5, y + 3) for i in range(n)]
            elif kind == 'stairs': bs += [(4 * i + 1000 * c, 3 * i, 4 * i + 5 + 1000 * c, 3 * i + 4) for i in range(n)]
            elif kind == 'comb': bs += [(0, y, 4 * n, y + 1)] + [(4 * i, y, 4 * i + 1, y + 20) for i in range(n)]
            else: bs += [(-10 - i + 1, y - 300, -10 - i + 2.5, y - 290) for i in range(n)]
        rng.shuffle(bs)
        items = elements(x, bs)
        x.case('chains', (n, m, k))
        by_connectivity(x, BaseCollection(items), items, bs, 0, 0, 'chains', dict(boxes=bs, dx=0, dy=0))
        o = lambda a, b: all(min(a.bbox[d + 2], b.bbox[d + 2]) - max(a.bbox[d], b.bbox[d]) > 0 for d in (0, 1))
        l = comps(len(items), lambda i, j: o(items[i], items[j]))
        judge(x, 'chains', items, BaseCollection(items).group(o), l, l, dict(boxes=bs))
