"""Contract language.  A contract is a harness over a context `c`: it introduces the
parameters, states the precondition (c.requires), calls the real function (c.call) and
states the postconditions (c.ensures).  The same text is executed symbolically (proof)
and concretely on the unmodified code (bounded check, counterexample replay)."""
import random, importlib, sys, math

CONTRACTS = []


class Loop:
    """invariant (and variant) of a loop; types: types of havocked locals where the inferred ones do not do"""
    def __init__(self, inv=None, decreases=None, types=None, weak=False, frame=None):
        self.inv, self.decreases, self.types, self.weak, self.frame = inv, decreases, types or {}, weak, frame


class Contract:
    def __init__(self, prop, target, fn, loops, stubs, raises, name, n, timeout, max_paths, bounded, uses, also):
        self.props = [prop] if isinstance(prop, str) else list(prop)
        self.target, self.fn, self.loops, self.stubs, self.raises = target, fn, loops or {}, stubs or {}, raises
        self.name, self.n, self.timeout, self.max_paths, self.bounded = name, n, timeout, max_paths, bounded
        self.uses = uses or []
        self.also = also or []
    @property
    def id(self): return f'{self.target}[{self.name}]'


def contract(prop, target, loops=None, stubs=None, raises=(), name='', n=200, timeout=10, max_paths=2000, bounded=None, within=None, uses=None, also=None, assumes=()):
    """target: 'module:Qualified.name' below pdf2docx; bounded: reason why there is only a bounded check;
    within: bound on the structure of the inputs (numbers of elements), all values within are symbolic; not counted as proved"""
    def deco(fn):
        CONTRACTS.append(Contract(prop, target, fn, loops, stubs, raises, name or fn.__name__, n, timeout, max_paths, bounded, uses, also))
        CONTRACTS[-1].assumes = list(assumes)
        CONTRACTS[-1].within = within
        return fn
    return deco


class Reject(Exception): pass
class Failed(Exception):
    def __init__(self, label, detail=''): super().__init__(label); self.label, self.detail = label, detail

TOL = 1e-6
MODE = {'sym': False}


def sym(): return MODE['sym']

def unsupported(why):
    """the code does something with a stand-in that the stand-in does not have: outside the verified subset, no verdict"""
    from .core import Unsupported
    raise Unsupported(why)

def _issym(*xs):
    if not sym(): return False
    from .core import B, Num
    import z3
    from .values import VList, MRect, Str, SymEnum, VSet, SymOpaque
    return any(isinstance(x, (B, Num, z3.AstRef, Str, SymEnum, VList, MRect, VSet, SymOpaque)) for x in xs)

def _t(x):
    from .core import tobool
    return tobool(x)

def And(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    xs = list(xs)
    if _issym(*xs):
        import z3
        from .core import mkB
        return mkB(z3.And(*[_t(x) for x in xs]))
    return all(bool(x) for x in xs)

def Or(*xs):
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)): xs = xs[0]
    xs = list(xs)
    if _issym(*xs):
        import z3
        from .core import mkB
        return mkB(z3.Or(*[_t(x) for x in xs]))
    return any(bool(x) for x in xs)

def Not(x):
    if _issym(x):
        import z3
        from .core import mkB
        return mkB(z3.Not(_t(x)))
    return not x

def Implies(a, b):
    if callable(b) and not _issym(b):
        if not _issym(a): return True if not a else b()
        b = b()
    if _issym(a, b):
        import z3
        from .core import mkB
        return mkB(z3.Implies(_t(a), _t(b)))
    return (not a) or bool(b)

def Iff(a, b):
    if _issym(a, b):
        from .core import mkB
        return mkB(_t(a) == _t(b))
    return bool(a) == bool(b)

def Ite(c, a, b):
    if _issym(c):
        import z3
        from .core import lift, unify, mk, B, mkB
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)): return mkB(z3.If(_t(c), _t(a), _t(b)))
        x, y = unify(lift(a), lift(b))
        return mk(z3.If(_t(c), x, y))
    return a if c else b

def _num(x): return isinstance(x, (int, float)) and not isinstance(x, bool)

def eq(a, b):
    if _issym(a, b):
        from .values import veq
        return veq(a, b)
    if _num(a) and _num(b): return abs(a - b) <= TOL * max(1, abs(a), abs(b))
    return a == b
def ne(a, b): return Not(eq(a, b))
def le(a, b):
    if _issym(a, b): return a <= b
    return a <= b + TOL
def ge(a, b): return le(b, a)
def lt(a, b):
    """strict; with float slack in concrete runs (never raises a false alarm)"""
    if _issym(a, b): return a < b
    return a < b + TOL
def gt(a, b): return lt(b, a)
def Max(a, b): return Ite(a >= b, a, b)
def Min(a, b): return Ite(a <= b, a, b)
def Abs(a): return Ite(a >= 0, a, -a)
def Len(l):
    if sym():
        from .runtime import v_len
        return v_len(l)
    return len(l)
def toint(x):
    if sym():
        from .runtime import v_int
        return v_int(x)
    return int(x)

def at(l, i):
    """l[i] without bounds check"""
    if sym():
        from .values import VList, VRange
        from .core import lift
        if isinstance(l, VRange): l = l.vlist()
        if isinstance(l, VList): return l.raw(lift(i))
        if isinstance(i, int): return l[i]
    return l[i]

_q = [0]
def forall(lo, hi, f, pats=None):
    """for all lo <= i < hi: f(i)"""
    if sym():
        import z3
        from .core import S, Num, mkB, lift, tobool
        l, h = z3.simplify(lift(lo)), z3.simplify(lift(hi))
        if z3.is_int_value(l) and z3.is_int_value(h) and h.as_long() - l.as_long() <= 12:
            return And([f(i) for i in range(l.as_long(), h.as_long())]) if h.as_long() > l.as_long() else True
        _q[0] += 1
        k = z3.Int(f'q!{_q[0]}')
        S.placeholders.append(k)
        try: body = tobool(f(Num(k)))
        finally: S.placeholders.pop()
        q = dict(patterns=[p if not isinstance(p, tuple) else z3.MultiPattern(*p) for p in pats(k)]) if pats else {}
        return mkB(z3.ForAll([k], z3.Implies(z3.And(k >= l, k < h), body), **q))
    return all(bool(f(i)) for i in range(lo, hi))

def exists(lo, hi, f):
    if sym():
        import z3
        from .core import S, Num, mkB, lift, tobool
        l, h = z3.simplify(lift(lo)), z3.simplify(lift(hi))
        if z3.is_int_value(l) and z3.is_int_value(h) and h.as_long() - l.as_long() <= 12:
            return Or([f(i) for i in range(l.as_long(), h.as_long())]) if h.as_long() > l.as_long() else False
        _q[0] += 1
        k = z3.Int(f'q!{_q[0]}')
        S.placeholders.append(k)
        try: body = tobool(f(Num(k)))
        finally: S.placeholders.pop()
        return mkB(z3.Exists([k], z3.And(k >= l, k < h, body)))
    return any(bool(f(i)) for i in range(lo, hi))

def is_none(x): return x is None
def same(a, b):
    """object identity"""
    if sym():
        from .values import is_
        return is_(a, b)
    return a is b
def has(s, i):
    """membership in a set of ints"""
    if sym():
        from .values import VSet, VList
        if isinstance(s, (VSet, VList)): return s.has(i)
    return i in s

def pairset(name='pairs'):
    """ghost relation over ints"""
    if sym():
        from .values import PairSet, I, BS
        from .core import fresh
        import z3
        return PairSet(fresh(name, z3.ArraySort(I, z3.ArraySort(I, BS))))
    return set()


def sym_matrix(base, made={}):
    """a matrix of symbolic numbers"""
    if base not in made:
        class M(base):
            def __iter__(self): return iter(self.vals)
            def __getitem__(self, k): return self.vals[k]
            def __len__(self): return 6
            def __bool__(self): return True         # only a matrix of six zeros is false
            def __mul__(self, o): unsupported('product of symbolic matrices')
            __invert__ = __mul__
        for k, n in enumerate('abcdef'): setattr(M, n, property(lambda self, k=k: self.vals[k]))
        made[base] = M
    return made[base]


class Ctx0:
    def mod(self, name):
        return importlib.import_module('pdf2docx.' + name if name else 'pdf2docx')
    def requires(self, *conds):
        for x in conds: self._require(x)
    def ensures(self, label, cond): raise NotImplementedError
    def matrix(self, *a):
        import fitz
        if not _issym(*a): return fitz.Matrix(*a)
        m = fitz.Matrix.__new__(sym_matrix(fitz.Matrix))
        m.vals = tuple(a)
        return m
    def target(self, t):
        m, q = t.split(':')
        o = self.mod(m)
        for p in q.split('.'): o = getattr(o, p)
        return o
    def raw(self, cls, **fields):
        """instance of cls with exactly these fields"""
        o = cls.__new__(cls)
        for k, v in fields.items(): o.__dict__[k] = v
        return o


class SymCtx(Ctx0):
    """symbolic execution"""
    symbolic = True
    def __init__(self, con): self.con, self.vars, self.done = con, {}, 0
    def _reg(self, name, ty, v): self.vars[name] = (ty, v); return v
    def real(self, name, lo=None, hi=None, grid=None):
        from .values import Real
        v = Real.fresh(name)
        self._bound(v, lo, hi); return self._reg(name, 'real', v)
    def int(self, name, lo=None, hi=None, rnd=None):
        from .values import Int
        v = Int.fresh(name)
        self._bound(v, lo, hi); return self._reg(name, 'int', v)
    def _bound(self, v, lo, hi):
        from .core import assume
        if lo is not None: assume(v >= lo)
        if hi is not None: assume(v <= hi)
    def bool(self, name):
        from .values import Bool
        return self._reg(name, 'bool', Bool.fresh(name))
    def str(self, name, choices=None, alphabet=None):
        from .values import StrT
        return self._reg(name, 'str', StrT.fresh(name))
    def enum(self, name, cls):
        from .values import EnumT
        return self._reg(name, 'enum', EnumT(cls).fresh(name))
    def choice(self, name, options):
        """fork over concrete alternatives"""
        from .core import branch, fresh
        import z3
        k = fresh(name, z3.IntSort())
        for i, o in enumerate(options[:-1]):
            if branch(k == i): self._reg(name, 'choice', i); return o
        self._reg(name, 'choice', len(options) - 1)
        return options[-1]
    def rect(self, name, valid=True, lo=None, hi=None, nonempty=False):
        from .values import Rect
        from .core import assume
        r = Rect.fresh(name)
        if nonempty: assume((r.x0 < r.x1)); assume((r.y0 < r.y1))
        elif valid: assume((r.x0 <= r.x1)); assume((r.y0 <= r.y1))
        for v in r.c: self._bound(v, lo, hi)
        return self._reg(name, 'rect', r)
    def list(self, name, ty, n=None, maxn=6):
        """list of unknown length; ty: see types()"""
        from .values import List, VList
        t = self.ty(ty)
        v = List(t).fresh(name)
        import z3
        from .core import Num, S
        self._reg(name, ('list', ty), v.copy())
        return v
    def ty(self, ty):
        from . import values as V
        if isinstance(ty, str): return {'real': V.Real, 'int': V.Int, 'bool': V.Bool, 'str': V.StrT, 'rect': V.Rect, 'set': V.SetInt, 'setref': V.SetRef}[ty]
        if isinstance(ty, tuple):
            if ty[0] == 'tuple': return V.Tup(*[self.ty(x) for x in ty[1:]])
            if ty[0] == 'fix': return V.Fix(*[self.ty(x) for x in ty[1:]])
            if ty[0] == 'list': return V.List(self.ty(ty[1]))
            if ty[0] == 'rec': return V.Record(**{k: self.ty(t) for k, t in ty[1].items()})
            if ty[0] == 'opt': return V.Opt(self.ty(ty[1]))
            if ty[0] == 'obj': return V.Obj(*[self.cls(x) for x in ty[1:]])
            if ty[0] == 'enum': return V.EnumT(self.cls(ty[1]))
        return ty
    def cls(self, x):
        if isinstance(x, str):
            m, q = x.split(':')
            o = self.mod(m)
            for p in q.split('.'): o = getattr(o, p)
            return o
        return x
    def pylist(self, name, gen, n): return self.vlist([gen(f'{name}.{i}') for i in range(n)])
    def vlist(self, items):
        from .values import VList
        return VList(items)
    def mkrect(self, *a):
        from .values import MRect
        return MRect(*a)
    def _require(self, x):
        from .core import assume, branch, PathEnd, B
        if isinstance(x, B): assume(x.t)
        elif not x: raise PathEnd('precondition false')
    assume = _require
    def call(self, fn, *a, **k):
        from .core import S
        try:
            r = fn(*a, **k)
        except self.con.raises as e:
            self.raised = e
            return None
        except Exception as e:
            from .core import prove, Unsupported
            import traceback, z3
            if isinstance(e, z3.Z3Exception): raise Unsupported(f'z3: {e}')
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, (AttributeError, NameError, AssertionError, NotImplementedError)) and '/pyvc/' in tb[-1].filename: raise Unsupported(f'{type(e).__name__} in pyvc: {e}')
            where = [f'{f.filename.split("/repo/")[-1]}:{f.lineno}' for f in tb if 'pdf2docx' in f.filename]
            import os
            if os.environ.get('PYVC_TB'): traceback.print_exc()
            prove(False, f'no {type(e).__name__} ({e}) at {where[-1] if where else "?"}')
            raise
        return r
    def ensures(self, label, cond):
        from .core import prove
        if isinstance(cond, (bool,)) and cond is True:
            import z3
            cond = z3.BoolVal(True)
        prove(cond, label)
        self.done += 1
    def stable(self, fn):
        """evaluate in the state before the call"""
        return fn()


class ConcCtx(Ctx0):
    """concrete execution on the unmodified code: random or given values"""
    symbolic = False
    def __init__(self, con, rng, given=None):
        self.con, self.rng, self.given, self.drawn, self.done = con, rng, given, {}, 0
    def _val(self, name, gen, conv=lambda x: x):
        if self.given is not None and name in self.given: v = conv(self.given[name])
        elif self.given is not None and self.given.get('!strict'): v = gen()
        else: v = gen()
        self.drawn[name] = v if not hasattr(v, '__iter__') or isinstance(v, str) else list(v)
        return v
    def real(self, name, lo=None, hi=None, grid=None):
        def gen():
            if grid is not None and self.rng.random() < .8: return self.rng.choice(grid)
            a, b = (lo if lo is not None else (hi - 30 if hi is not None else -10)), (hi if hi is not None else (lo + 30 if lo is not None else 30))
            m = self.rng.random()
            if m < .5: v = round(self.rng.uniform(a, b))
            elif m < .8: v = round(self.rng.uniform(a, b), 1)
            else: v = self.rng.uniform(a, b)
            return float(min(max(v, a), b))
        return self._val(name, gen, float)
    def int(self, name, lo=None, hi=None, rnd=None):
        def gen():
            a = lo if lo is not None else -5
            b = hi if hi is not None else a + 20
            if rnd: a, b = rnd
            return self.rng.randint(a, b)
        return self._val(name, gen, int)
    def bool(self, name): return self._val(name, lambda: self.rng.random() < .5, bool)
    def str(self, name, choices=None, alphabet='ab c'):
        def gen():
            if choices: return self.rng.choice(choices)
            return ''.join(self.rng.choice(alphabet or 'ab c') for _ in range(self.rng.randint(0, 6)))
        return self._val(name, gen, str)
    def enum(self, name, cls):
        ms = list(cls)
        return ms[self._val(name, lambda: self.rng.randrange(len(ms)), int)]
    def choice(self, name, options):
        return options[self._val(name, lambda: self.rng.randrange(len(options)), int)]
    def rect(self, name, valid=True, lo=None, hi=None, nonempty=False):
        import fitz
        def gen():
            a, b = (lo if lo is not None else -5), (hi if hi is not None else 25)
            def co():
                return round(self.rng.uniform(a, b)) if self.rng.random() < .6 else round(self.rng.uniform(a, b), 1)
            x, y = sorted([co(), co()]), sorted([co(), co()])
            if nonempty:
                if x[0] == x[1]: x[1] += 1
                if y[0] == y[1]: y[1] += 1
            elif not valid and self.rng.random() < .3: x = x[::-1]
            return [x[0], y[0], x[1], y[1]]
        v = self._val(name, gen, lambda l: [float(x) for x in l])
        return fitz.Rect(v)
    def list(self, name, ty, n=None, maxn=6):
        def gen():
            k = self.rng.randint(0, maxn)
            return [self.gen(ty) for _ in range(k)]
        v = self._val(name, gen)
        return [self.build(ty, x) for x in v]
    def gen(self, ty):
        if ty == 'real':
            return float(self.rng.choice([self.rng.randint(-3, 9), round(self.rng.uniform(-3, 9), 1)]))
        if ty == 'int': return self.rng.randint(-2, 8)
        if ty == 'bool': return self.rng.random() < .5
        if ty == 'str': return ''.join(self.rng.choice('ab c') for _ in range(self.rng.randint(0, 3)))
        if ty == 'rect':
            x, y = sorted(self.rng.randint(0, 12) for _ in range(2)), sorted(self.rng.randint(0, 12) for _ in range(2))
            return [x[0], y[0], x[1], y[1]]
        if ty in ('set', 'setref'): return [i for i in range(6) if self.rng.random() < .4]
        if ty[0] in ('tuple', 'fix'): return [self.gen(t) for t in ty[1:]]
        if ty[0] == 'list': return [self.gen(ty[1]) for _ in range(self.rng.randint(0, 4))]
        if ty[0] == 'opt': return None if self.rng.random() < .3 else self.gen(ty[1])
        raise NotImplementedError(ty)
    def build(self, ty, v):
        if ty == 'rect':
            import fitz
            return fitz.Rect(v)
        if ty in ('set', 'setref'): return set(v)
        if ty[0] == 'tuple' and isinstance(ty, tuple): return tuple(self.build(t, x) for t, x in zip(ty[1:], v))
        if ty[0] == 'fix' and isinstance(ty, tuple): return [self.build(t, x) for t, x in zip(ty[1:], v)]
        if isinstance(ty, tuple) and ty[0] == 'list': return [self.build(ty[1], x) for x in v]
        if isinstance(ty, tuple) and ty[0] == 'opt': return None if v is None else self.build(ty[1], v)
        return v
    def cls(self, x):
        m, q = x.split(':')
        o = self.mod(m)
        for p in q.split('.'): o = getattr(o, p)
        return o
    def pylist(self, name, gen, n): return [gen(f'{name}.{i}') for i in range(n)]
    def vlist(self, items): return list(items)
    def mkrect(self, *a):
        import fitz
        return fitz.Rect(*a)
    def _require(self, x):
        if not x: raise Reject()
    assume = _require
    def call(self, fn, *a, **k):
        try: return fn(*a, **k)
        except self.con.raises as e:
            self.raised = e
            return None
        except Exception as e:
            import traceback
            raise Failed(f'no {type(e).__name__} ({e})', traceback.format_exc())
    def ensures(self, label, cond):
        self.done += 1
        if not cond: raise Failed(label)


# ---------------------------------------------------------------- schemas and helpers
SCHEMAS = {}

def schema(cls, **fields):
    """types of the fields of symbolic objects of a class"""
    SCHEMAS.setdefault(cls, {}).update(fields)


def install_schemas(ctx):
    from . import values
    values.SCHEMA.clear()
    for c, fs in SCHEMAS.items():
        values.SCHEMA[c] = {k: ctx.ty(v) for k, v in fs.items()}


def distinct(lst):
    """objects of a symbolic list are pairwise different"""
    import z3
    from .core import S, mkB
    n = S.counts.get('pos', 0); S.counts['pos'] = n + 1
    f = z3.Function(f'posof!{n}', z3.IntSort(), z3.IntSort())
    k = z3.Int('k!dist')
    leaf = lst.leaf_fn()
    return mkB(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lst.nterm()), f(leaf(k)[0]) == k), patterns=[leaf(k)[0]]))


def positions(lst):
    """the position of an object in a symbolic list of different objects"""
    import z3
    from .core import S, Num, mkB, assume
    n = S.counts.get('pos', 0); S.counts['pos'] = n + 1
    f = z3.Function(f'posof!{n}', z3.IntSort(), z3.IntSort())
    k = z3.Int('k!dist')
    leaf = lst.leaf_fn()
    assume(mkB(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < lst.nterm()), f(leaf(k)[0]) == k), patterns=[leaf(k)[0]])))
    return lambda o: Num(f(o._ref))


def partition(src, outs, k, pos):
    """the lists `outs` together are the first k elements of src, each once and in order
    (positions grow within each list, no position is in two lists, and the sizes add up)"""
    r = [('sizes add up', eq(sum([Len(o) for o in outs[1:]], Len(outs[0])), k))]
    for n, o in enumerate(outs):
        r += [(f'group {n}: positions', forall(0, Len(o), lambda p: And(pos(at(o, p)) >= 0, pos(at(o, p)) < k, same(at(src, pos(at(o, p))), at(o, p))))),
              (f'group {n}: in order', forall(0, Len(o), lambda p: forall(0, Len(o), lambda q: Implies(p < q, pos(at(o, p)) < pos(at(o, q))))))]
        for m in range(n):
            r.append((f'groups {m} and {n} share nothing', forall(0, Len(outs[m]), lambda p: forall(0, Len(o), lambda q: Not(eq(pos(at(outs[m], p)), pos(at(o, q))))))))
    return r


def ufun(name, *sorts):
    """uninterpreted function of ints/objects: ufun('fail', 'bool')(x)"""
    def f(*xs):
        import z3
        from .core import mk, mkB, lift
        from .values import is_symobj
        from .values import strlift, mkstr
        S_ = {'int': z3.IntSort(), 'bool': z3.BoolSort(), 'real': z3.RealSort(), 'str': z3.StringSort()}
        res = S_[sorts[-1]]
        ts = [x._ref if is_symobj(x) else (lift(x) if strlift(x) is None else strlift(x)) for x in xs]
        g = z3.Function(name, *[t.sort() for t in ts], res)
        r = g(*ts)
        return mkB(r) if res == z3.BoolSort() else mkstr(r) if res == z3.StringSort() else mk(r)
    return f


def exists_now(x):
    """the object x was created before (it differs from every object created later)"""
    from .core import S, mkB
    return mkB(x._ref <= S.alloc)


def snapshot(fn):
    """fn evaluated in the current heap, whenever it is called later"""
    from .core import S
    h = dict(S.heap)
    def g(*a):
        cur, S.heap = S.heap, dict(h)
        try: return fn(*a)
        finally: S.heap = cur
    return g


def ghost(name, value=None):
    """an object introduced by the contract, visible to loop invariants"""
    from .core import S
    r = S.ghost.setdefault('roots', {})
    if value is not None: r[name] = value
    return r[name]


def startswith(s, p):
    if sym():
        import z3
        from .core import mkB
        from .values import strlift
        return mkB(z3.PrefixOf(strlift(p), strlift(s)))
    return s.startswith(p)
