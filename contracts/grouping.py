"""C07: grouping = connected components"""
from pyvc.spec import *

SH = 'common.share:'
EDGE = ('tuple', 'int', ('fix', 'real', 'real', 'real', 'real'), 'real')
BX = [ufun(f'box{k}', 'real') for k in range(4)]      # ghost: the box of a rect id


RECT_OF = ufun('rect_of_edge', 'int')
def rid(e):
    """rect an edge belongs to"""
    return RECT_OF(e[0]) if sym() else e[0] // 2
def rect_of_is_half():
    import z3
    from pyvc.core import assume, Num
    k = z3.Int('k!rect')
    r = RECT_OF(Num(k))
    assume(z3.ForAll([k], z3.Implies(k >= 0, r.t == toint(Num(k) / 2).t), patterns=[r.t]))
def box(e, k): return at(e[1], k)


def edges(c, name):
    """a list of vertical edges, each carrying the box of its rect"""
    l = c.list(name, EDGE)
    c.requires(forall(0, Len(l), lambda i: And(at(l, i)[0] >= 0, *[eq(box(at(l, i), k), BX[k](rid(at(l, i)))) for k in range(4)])))
    return l


def reported(G, u, v):
    if sym(): return And(G.has(u, v), G.has(v, u))
    return v in G[u] and u in G[v]


def grows(L):
    """reported pairs stay reported"""
    G, P = L.index_groups, L.pre_.index_groups
    return pairs(lambda u, v: Implies(P.has(u, v), G.has(u, v)), lambda u, v: [G.has(u, v).t])


def pairs(f, pat=None):
    import z3
    from pyvc.core import Num, mkB, tobool, S
    u, v = z3.Ints('u!pair v!pair')
    S.placeholders += [u, v]
    try:
        b = tobool(f(Num(u), Num(v)))
        p = pat(Num(u), Num(v)) if pat else None
    finally: del S.placeholders[-2:]
    from pyvc.core import patkw
    return mkB(z3.ForAll([u, v], b, **(patkw(*p) if p else {})))


def report(ctx):
    """contract of _report_pair on the ghost relation (proved below on the adjacency list)"""
    def stub(i, j, G):
        G.add(i, j); G.add(j, i)
    return stub


def ystrict(a, b): return And(box(a, 1) < box(b, 3), box(b, 1) < box(a, 3))
def touch(u, v, d): return And(BX[d](u) <= BX[d + 2](v), BX[d](v) <= BX[d + 2](u))


def sound(L, also=lambda u, v: True):
    G, P = L.index_groups, L.pre_.index_groups
    return pairs(lambda u, v: Implies(G.has(u, v), Or(P.has(u, v), And(from_(L.S1, L.S2, u, v)))))


IN1, IN2 = ufun('in1', 'bool'), ufun('in2', 'bool')
def new_ok(u, v): return And(Or(And(IN1(u), IN2(v)), And(IN1(v), IN2(u))), touch(u, v, 1))
def only_touching(G, P): return pairs(lambda u, v: Implies(G.has(u, v), Or(P.has(u, v), new_ok(u, v))), lambda u, v: [G.has(u, v).t])


def done_below(L):
    return forall(0, Len(L.S1), lambda p: forall(0, Len(L.S2), lambda q: Implies(
        And(Or(p < L.i, q < L.j), ystrict(at(L.S1, p), at(L.S2, q))), reported(L.index_groups, rid(at(L.S1, p)), rid(at(L.S2, q))))))


OUTER = Loop(inv=lambda L: [
    ('positions', And(L.i >= 0, L.i <= Len(L.S1), L.j >= 0, L.j <= Len(L.S2))),
    ('pairs left of the positions are reported', done_below(L)),
    ('reported pairs stay', grows(L)),
    ('only touching pairs are reported', only_touching(L.index_groups, L.pre_.index_groups)),
], decreases=lambda L: Len(L.S1) - L.i + Len(L.S2) - L.j)
INNER1 = Loop(inv=lambda L: [
    ('position', And(L.k >= L.j, L.k <= Len(L.S2))),
    ('pairs of a up to here are reported', forall(L.j, L.k, lambda q: reported(L.index_groups, rid(at(L.S1, L.i)), rid(at(L.S2, q))))),
    ('reported pairs stay', grows(L)),
    ('only touching pairs are reported', only_touching(L.index_groups, L.pre_.index_groups)),
], decreases=lambda L: Len(L.S2) - L.k)
INNER2 = Loop(inv=lambda L: [
    ('position', And(L.k >= L.i, L.k <= Len(L.S1))),
    ('pairs of b up to here are reported', forall(L.i, L.k, lambda p: reported(L.index_groups, rid(at(L.S1, p)), rid(at(L.S2, L.j))))),
    ('reported pairs stay', grows(L)),
    ('only touching pairs are reported', only_touching(L.index_groups, L.pre_.index_groups)),
], decreases=lambda L: Len(L.S1) - L.k)


@contract('C07', SH + '_stab', loops={0: OUTER, 1: INNER1, 2: INNER2}, stubs={SH + '_report_pair': report}, n=0, timeout=20)
def stab(c):
    rect_of_is_half()
    S1, S2 = edges(c, 'S1'), edges(c, 'S2')
    c.requires(forall(0, Len(S1), lambda p: And(IN1(rid(at(S1, p))), box(at(S1, p), 1) <= box(at(S1, p), 3))))
    c.requires(forall(0, Len(S2), lambda p: And(IN2(rid(at(S2, p))), box(at(S2, p), 1) <= box(at(S2, p), 3))))
    A, B_ = S1.copy(), S2.copy()
    G = pairset('G')
    P = type(G)(G.a)
    c.call(c.mod('common.share')._stab, S1, S2, G)
    c.ensures('overlapping intervals are reported', forall(0, Len(A), lambda p: forall(0, Len(B_), lambda q: Implies(
        ystrict(at(A, p), at(B_, q)), reported(G, rid(at(A, p)), rid(at(B_, q)))))))
    c.ensures('reported pairs stay', pairs(lambda u, v: Implies(P.has(u, v), G.has(u, v))))
    c.ensures('only touching pairs are reported', only_touching(G, P))


@contract('C07', SH + '_report_pair')
def report_pair(c):
    l = c.list('graph', 'setref')
    i, j = c.int('i', 0, None, (0, 5)), c.int('j', 0, None, (0, 5))
    n = Len(l)
    c.requires(i < n, j < n, i != j)
    old = lambda u, x: has(at(l, u), x)
    if sym():
        c.requires(distinct(l))
        old = snapshot(old)
        c.call(c.mod('common.share')._report_pair, i, j, l)
        c.ensures('exactly the pair is added', forall(0, n, lambda u: pairs(lambda x, _: Iff(has(at(l, u), x), Or(old(u, x), And(u == i, x == j), And(u == j, x == i))))))
    else:
        o = [set(s) for s in l]
        c.call(c.mod('common.share')._report_pair, i, j, l)
        o[i].add(j); o[j].add(i)
        c.ensures('exactly the pair is added', l == o)


# ------------------------------------------------------------------ the sweep
# ghost: the whole sorted sequence of edges; edge at position g has id EID(g), belongs to rect RECT(g);
# PL/PR: positions of the left/right edge of a rect
EID, RECT, LEFT, PL, PR = ufun('edge_at', 'int'), ufun('rect_at', 'int'), ufun('left_at', 'bool'), ufun('left_edge', 'int'), ufun('right_edge', 'int')
def xof(g): return Ite(LEFT(g), BX[0](RECT(g)), BX[2](RECT(g)))


def axiom_for_all(f, pat=None):
    import z3
    from pyvc.core import tobool, Num, S, assume, patkw
    k = z3.Int('g!edge'); S.placeholders.append(k)
    try: b, p = tobool(f(Num(k))), pat(Num(k)).t if pat else None
    finally: S.placeholders.pop()
    assume(z3.ForAll([k], b, **(patkw(p) if pat else {})))


def global_edges(c):
    M = c.int('M', 2); N = c.int('N', 1)
    axiom_for_all(lambda g: Implies(And(g >= 0, g < M), And(RECT(g) >= 0, RECT(g) < N, EID(g) >= 0, eq(RECT_OF(EID(g)), RECT(g)), Implies(LEFT(g), eq(PL(RECT(g)), g)), Implies(Not(LEFT(g)), eq(PR(RECT(g)), g)))), RECT)
    axiom_for_all(lambda r: Implies(And(r >= 0, r < N), And(PL(r) >= 0, PL(r) < PR(r), PR(r) < M, LEFT(PL(r)), Not(LEFT(PR(r))), eq(RECT(PL(r)), r), eq(RECT(PR(r)), r))), PL)
    axiom_for_all(lambda r: Implies(And(r >= 0, r < N), And(BX[0](r) <= BX[2](r), BX[1](r) <= BX[3](r))), BX[0])
    c.requires(pairs(lambda g, h: Implies(And(g >= 0, g <= h, h < M), xof(g) <= xof(h)), lambda g, h: [RECT(g).t + RECT(h).t] and []))
    return M, N


def is_slice(V, lo, M):
    return And(lo >= 0, lo + Len(V) <= M, forall(0, Len(V), lambda k: And(
        eq(at(V, k)[0], EID(lo + k)), eq(at(V, k)[2], xof(lo + k)),
        *[eq(box(at(V, k), d), BX[d](RECT(lo + k))) for d in range(4)])))


def strict(u, v, d): return And(BX[d](u) < BX[d + 2](v), BX[d](v) < BX[d + 2](u))
def inside(u, lo, n): return Or(And(PL(u) >= lo, PL(u) < lo + n), And(PR(u) >= lo, PR(u) < lo + n))
def must(u, v, lo, n, N):
    return And(u >= 0, u < N, v >= 0, v < N, ne(u, v), inside(u, lo, n), inside(v, lo, n), strict(u, v, 0), strict(u, v, 1))
def complete(lo, n, N, G): return pairs(lambda u, v: Implies(must(u, v, lo, n, N), reported(G, u, v)), lambda u, v: [G.has(u, v).t])
def touching(G, P): return pairs(lambda u, v: Implies(G.has(u, v), Or(P.has(u, v), And(touch(u, v, 0), touch(u, v, 1)))), lambda u, v: [G.has(u, v).t])
def keeps(G, P): return pairs(lambda u, v: Implies(P.has(u, v), G.has(u, v)), lambda u, v: [G.has(u, v).t])


def stab_contract(ctx):
    """contract of _stab (proved above)"""
    def stub(S1, S2, G):
        from pyvc.core import prove, fresh
        for l, n in ((S1, 'S1'), (S2, 'S2')):
            prove(forall(0, Len(l), lambda p: And(at(l, p)[0] >= 0, box(at(l, p), 1) <= box(at(l, p), 3),
                  *[eq(box(at(l, p), k), BX[k](rid(at(l, p)))) for k in range(4)])), f'precondition of _stab: {n}')
        P = type(G)(G.a)
        G.set(fresh('G', G.a.sort()))
        ctx.requires(forall(0, Len(S1), lambda p: forall(0, Len(S2), lambda q: Implies(ystrict(at(S1, p), at(S2, q)), reported(G, rid(at(S1, p)), rid(at(S2, q)))))))
        ctx.requires(keeps(G, P))
        def member(l, u): return exists(0, Len(l), lambda p: eq(rid(at(l, p)), u))
        ctx.requires(pairs(lambda u, v: Implies(G.has(u, v), Or(P.has(u, v), And(touch(u, v, 1), Or(And(member(S1, u), member(S2, v)), And(member(S1, v), member(S2, u)))))), lambda u, v: [G.has(u, v).t]))
        prove(touching(G, P), 'pairs reported by _stab touch')
        ctx.stabs.append((S1.copy(), S1.facts, S2.copy(), S2.facts, type(G)(G.a)))
    return stub


def solve_contract(ctx):
    """the contract itself, for the recursive calls"""
    real = ctx.mod('common.share').solve_rects_intersection
    depth = [0]
    def stub(V, num, G):
        if not depth[0]:
            depth[0] = 1
            try: return real(V, num, G)
            finally: depth[0] = 0
        from pyvc.core import prove, fresh
        lo, M, N = ctx.ghost
        prove(eq(num, Len(V)), 'precondition of the recursive call: length')
        prove(num < ctx.measure, 'the recursion terminates')
        off = ctx.parts.pop(0)
        prove(is_slice(V, lo + off, M), 'precondition of the recursive call: slice of the sorted edges')
        P = type(G)(G.a)
        G.set(fresh('G', G.a.sort()))
        ctx.requires(complete(lo + off, num, N, G)); ctx.requires(keeps(G, P)); ctx.requires(touching(G, P))
    return stub


@contract('C07', SH + 'solve_rects_intersection', stubs={SH + '_stab': stab_contract, SH + 'solve_rects_intersection': solve_contract}, n=0, timeout=30)
def solve(c):
    M, N = global_edges(c)
    V = c.list('V', EDGE)
    lo = c.int('lo', 0)
    c.requires(is_slice(V, lo, M))
    n = Len(V)
    half = toint(n / 2.0)
    c.ghost, c.measure, c.parts, c.stabs = (lo, M, N), n, [0, half], []
    G = pairset('G')
    P = type(G)(G.a)
    A = V.copy()
    u, v = c.int('u'), c.int('v')
    c.requires(must(u, v, lo, n, N))
    c.call(c.mod('common.share').solve_rects_intersection, V, n, G)
    c.ensures('reported pairs stay', keeps(G, P))
    c.ensures('only touching boxes are reported', touching(G, P))
    # case analysis: both rects in one half, or one on either side of the split
    if bool(n >= 2):
        both = Or(And(inside(u, lo, half), inside(v, lo, half)), And(inside(u, lo + half, n - half), inside(v, lo + half, n - half)))
        if not bool(both):
            a, b = (u, v) if bool(inside(u, lo, half)) else (v, u)
            X0, X, X1 = xof(lo), xof(lo + half - 1), xof(lo + n - 1)
            c.ensures('lemma: sides', And(inside(a, lo, half), Not(inside(a, lo + half, n - half)), inside(b, lo + half, n - half), Not(inside(b, lo, half))))
            for e in (PL(a), PR(a)): c.ensures('lemma: an edge in the left half is at most X', Implies(And(e >= lo, e < lo + half), And(X0 <= xof(e), xof(e) <= X)))
            for e in (PL(b), PR(b)): c.ensures('lemma: an edge in the right half is at least X', Implies(And(e >= lo + half, e < lo + n), And(X <= xof(e), xof(e) <= X1)))
            c.ensures('lemma: a rect on the left ends before or spans', Or(BX[2](a) <= X, BX[2](a) >= X1))
            c.ensures('lemma: a rect on the right starts after or spans', Or(BX[0](b) >= X, BX[0](b) <= X0))
            c.ensures('lemma: one of them spans the other half', Or(BX[2](a) >= X1, BX[0](b) <= X0))
            for r in (a, b):
                for e in (PL(r), PR(r)):
                    x = at(A, e - lo)
                    c.ensures('lemma: an edge carries the box of its rect', Implies(And(e >= lo, e < lo + n, RECT(e) == r), And(eq(rid(x), r), *[eq(box(x, k), BX[k](r)) for k in range(4)])))
            # instances of the contract of _stab at the edges of the two rects
            for t, (S1, f1, S2, f2, Gt) in enumerate(c.stabs):
                for r1, r2 in (((b, a),) if t == 1 else ((a, b),)):
                    for e1 in (PL(r1), PR(r1)):
                        for e2 in (PL(r2), PR(r2)):
                            o1, o2 = (0, half) if r1 is a else (half, 0)
                            k1, k2 = (e1 - lo - o1), (e2 - lo - o2)
                            from pyvc.core import mkB
                            in1 = And(k1 >= 0, k1 < Num_(f1[4]), mkB(f1[3](k1.t)), RECT(e1) == r1)
                            in2 = And(k2 >= 0, k2 < Num_(f2[4]), mkB(f2[3](k2.t)), RECT(e2) == r2)
                            for S_, f, i_, k, r in ((S1, f1, in1, k1, r1), (S2, f2, in2, k2, r2)):
                                p = mk_(f[2](k.t))
                                c.ensures('lemma: an edge passing the filter is in the filtered list', Implies(i_, And(p >= 0, p < Len(S_), eq(rid(at(S_, p)), r), *[eq(box(at(S_, p), d), BX[d](r)) for d in (1, 3)])))
                            c.ensures('lemma: pair passing the filters is reported', Implies(And(in1, in2), reported(Gt, r1, r2)))
    c.ensures('overlapping boxes with edges in the list are reported', reported(G, u, v))


def mk_(t):
    from pyvc.core import mk
    return mk(t)


def Num_(t):
    from pyvc.core import mk
    return mk(t)


def hint(t):
    from pyvc.core import fresh, assume
    assume(fresh('hint', t.sort()) == t)


# ------------------------------------------------------------------ connected components
LAB = ufun('label', 'int')       # any labelling of the nodes that is constant along edges
REL = ufun('adjacent', 'bool')


def graph(c):
    """a symmetric graph as adjacency list"""
    l = c.list('graph', 'setref')
    n = Len(l)
    for_pairs(lambda u, v: Implies(And(u >= 0, u < n), Iff(has(at(l, u), v), REL(u, v))), lambda u, v: [REL(u, v).t, has(at(l, u), v).t])
    for_pairs(lambda u, v: Implies(And(u >= 0, u < n, REL(u, v)), And(v >= 0, v < n, REL(v, u), eq(LAB(u), LAB(v)))), lambda u, v: [REL(u, v).t])
    return l


def for_pairs(f, pat):
    from pyvc.core import assume
    assume(pairs(f, pat))


def inq(q, x): return exists(0, Len(q), lambda i: eq(at(q, i), x))


def bfs_inv(L, cur=None, upto=None):
    n = Len(L.graph)
    S_, Q, Y = L.searched, L.search_queue, L.yielded_
    def closed(u, v):
        k = Or(has(S_, v), inq(Q, v))
        if cur is not None: k = Or(k, And(eq(u, cur), Not(seen_upto(L, v))))
        return k
    return [
        ('searched nodes are nodes with the label of the start', all_of(lambda u: Implies(has(S_, u), And(u >= 0, u < n, eq(LAB(u), LAB(L.start)))), lambda u: has(S_, u))),
        ('queued nodes are nodes with the label of the start', forall(0, Len(Q), lambda i: And(at(Q, i) >= 0, at(Q, i) < n, eq(LAB(at(Q, i)), LAB(L.start))))),
        ('the start is searched or queued', Or(has(S_, L.start), inq(Q, L.start))),
        ('neighbours of searched nodes are searched or queued', pairs(lambda u, v: Implies(And(has(S_, u), REL(u, v)), closed(u, v)), lambda u, v: [REL(u, v).t])),
        ('yielded nodes are searched', forall(0, Len(Y), lambda i: has(S_, at(Y, i)))),
        ('searched nodes are yielded', all_of(lambda u: Implies(has(S_, u), exists(0, Len(Y), lambda i: eq(at(Y, i), u))), lambda u: has(S_, u))),
        ('no node is yielded twice', forall(0, Len(Y), lambda i: forall(0, i, lambda j: ne(at(Y, i), at(Y, j))))),
    ]


def all_of(f, pat=None):
    import z3
    from pyvc.core import Num, mkB, tobool, S, patkw, B
    u = z3.Int('u!all'); S.placeholders.append(u)
    try: b, p = tobool(f(Num(u))), pat(Num(u)) if pat else None
    finally: S.placeholders.pop()
    return mkB(z3.ForAll([u], b, **(patkw(p.t) if isinstance(p, B) else {})))


def seen_upto(L, v): return exists(0, L.k_, lambda i: eq(at(L.seq_, i), v))


@contract('C07', SH + '_graph_bfs_from_node', n=0, timeout=20, loops={0: Loop(inv=bfs_inv, types={'yielded_': 'int', 'search_queue': 'int'}),
                                                                     1: Loop(inv=lambda L: bfs_inv(L, L.cur_node), types={'search_queue': 'int'})})
def bfs(c):
    g = graph(c)
    start = c.int('start', 0)
    c.requires(start < Len(g))
    y = c.call(c.mod('common.share')._graph_bfs_from_node, g, start)
    s = toset(y)
    c.ensures('the start is in its component', has(s, start))
    c.ensures('neighbours are in the same component', pairs(lambda u, v: Implies(And(has(s, u), REL(u, v)), has(s, v)), lambda u, v: [REL(u, v).t]))
    c.ensures('nothing else is in the component', all_of(lambda u: Implies(has(s, u), And(u >= 0, u < Len(g), eq(LAB(u), LAB(start)))), lambda u: has(s, u)))


def toset(y):
    from pyvc.runtime import vset
    return vset(y)


def bfs_contract(ctx):
    """contract of _graph_bfs_from_node (proved above, for every labelling constant along edges: used for LAB and for
    the characteristic function of a closed set)"""
    def stub(graph, start):
        import sys
        from pyvc.core import prove, fresh, assume
        from pyvc.values import VSet, VIter, VList, Int, I, BS
        import z3
        n = Len(graph)
        prove(And(start >= 0, start < n), 'precondition of the search: a node')
        C = sys._getframe(1).f_locals['counted_indexes']
        prove(pairs(lambda u, v: Implies(And(has(C, u), REL(u, v)), has(C, v))), 'the nodes counted so far are closed under neighbourhood')
        s = VSet(fresh('component', z3.ArraySort(I, BS)))
        ctx.requires(has(s, start))
        ctx.requires(pairs(lambda u, v: Implies(And(has(s, u), REL(u, v)), has(s, v)), lambda u, v: [REL(u, v).t]))
        ctx.requires(all_of(lambda u: Implies(has(s, u), And(u >= 0, u < n, eq(LAB(u), LAB(start)), Iff(has(C, u), has(C, start)))), lambda u: has(s, u)))
        return s.enum()
    return stub


def groups_inv(L):
    n, C, G = Len(L.graph), L.counted_indexes, L.groups
    ing = lambda g, u: has(at(G, g), u)
    return [
        ('earlier nodes are counted', forall(0, L.k_, lambda i: has(C, i))),
        ('counted nodes are in a group', all_of(lambda u: Implies(has(C, u), exists(0, Len(G), lambda g: ing(g, u))), lambda u: has(C, u))),
        ('grouped nodes are counted', forall(0, Len(G), lambda g: all_of(lambda u: Implies(ing(g, u), And(u >= 0, u < n, has(C, u)))))),
        ('groups are closed', forall(0, Len(G), lambda g: pairs(lambda u, v: Implies(And(ing(g, u), REL(u, v)), ing(g, v))))),
        ('one label per group', forall(0, Len(G), lambda g: pairs(lambda u, v: Implies(And(ing(g, u), ing(g, v)), eq(LAB(u), LAB(v)))))),
        ('groups are disjoint', forall(0, Len(G), lambda h: forall(0, h, lambda g: all_of(lambda u: Not(And(ing(g, u), ing(h, u))))))),
        ('groups are not empty', forall(0, Len(G), lambda g: exists(0, n, lambda u: ing(g, u)))),
    ]


@contract('C07', SH + 'graph_bfs', n=0, timeout=20, stubs={SH + '_graph_bfs_from_node': bfs_contract}, loops={0: Loop(inv=groups_inv, types={'groups': 'set'})})
def components(c):
    g = graph(c)
    n = Len(g)
    G = c.call(c.mod('common.share').graph_bfs, g)
    ing = lambda k, u: has(at(G, k), u)
    u, v = c.int('u', 0), c.int('v', 0)
    c.requires(u < n, v < n)
    c.ensures('every node is in a group', exists(0, Len(G), lambda k: ing(k, u)))
    c.ensures('no node is in two groups', forall(0, Len(G), lambda h: forall(0, h, lambda k: Not(And(ing(k, u), ing(h, u))))))
    c.ensures('adjacent nodes are in the same group', Implies(REL(u, v), forall(0, Len(G), lambda k: Implies(ing(k, u), ing(k, v)))))
    c.ensures('nodes of a group are connected', forall(0, Len(G), lambda k: Implies(And(ing(k, u), ing(k, v)), eq(LAB(u), LAB(v)))))
    c.ensures('a group has nodes only', forall(0, Len(G), lambda k: all_of(lambda x: Implies(ing(k, x), And(x >= 0, x < n)))))
    c.ensures('no group is empty', forall(0, Len(G), lambda k: exists(0, n, lambda x: ing(k, x))))
