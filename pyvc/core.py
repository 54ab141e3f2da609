"""pyvc core: path-exploring verification-condition generation over z3 terms.

One `State` (S) describes the path being executed.  Real, mechanically transformed
functions of /repo run on symbolic proxies (Num, B, Str, VList, ...); a branch on an
undecided SymBool consults the decision prefix of the path and otherwise schedules the
alternative.  Proof obligations are recorded together with the path condition."""
import z3
from fractions import Fraction


class PathEnd(BaseException):
    """The current path ends here (infeasible, or cut by a loop invariant)."""

class Unsupported(BaseException):
    """Code outside the verified subset."""

class Restart(BaseException):
    """Exploration has to restart (a loop writes more than assumed so far)."""


class Ctx:
    def __init__(self, prefix, parent=None):
        self.prefix, self.pos, self.taken, self.alts, self.parent = prefix, 0, [], [], parent

    @property
    def fresh(self):
        """past the replayed prefix?"""
        return self.pos >= len(self.prefix)


class Obligation:
    __slots__ = ('label', 'assumptions', 'goal', 'path', 'info', 'status', 'backend', 'time', 'model')
    def __init__(self, label, assumptions, goal, path, info=None):
        self.label, self.assumptions, self.goal, self.path, self.info = label, assumptions, goal, path, info
        self.status = self.backend = self.model = None
        self.time = 0.0


class State:
    feas_timeout = 400
    max_paths = 4000
    deadline = None

    def __init__(self):
        self.obligations = []
        self.paths = 0
        self.loop_mods = {}
        self.reset([])

    def reset(self, prefix):
        self.counts = {}
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        self.ctx = Ctx(prefix)
        self.heap = {}
        self.placeholders = []
        self.alloc = z3.Int('alloc0')
        self.alloc0 = self.alloc
        self.events = []
        self.loopstack = []
        self.nalloc = 0
        self.ghost = {}
        self.track = []          # stack of write-trackers of active cut loops
        self.newobjs = []        # keep ids alive
        self.axioms = {}
        self.prefer = []
        assume(self.alloc >= 0)


S = State.__new__(State)


TOKENS = []
def token(v):
    """placeholder of a symbolic value within formatted text"""
    TOKENS.append(v)
    return f'\u27e6{len(TOKENS) - 1}\u27e7'


def has_quant(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): return True
        todo.extend(x.children())
    return False


def nonlinear(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_mul(x) and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in x.children()) > 1: return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (z3.is_rational_value(x.arg(1)) or z3.is_int_value(x.arg(1))): return True
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_POWER: return True
        todo.extend(x.children())
    return False


def assume(t, decision=False):
    if isinstance(t, bool):
        if t: return
        raise PathEnd('assume False')
    if isinstance(t, B): t = t.t
    if z3.is_true(t): return
    S.pc.append((t, decision))
    if not has_quant(t): S.solver.add(t)


def axiom(key, term):
    """a global fact, asserted once per path"""
    if key in S.axioms: return
    S.axioms[key] = term


def fresh(name, sort):
    n = S.counts.get(name, 0)
    S.counts[name] = n + 1
    name = f'{name}!{n}'
    if S.placeholders:
        f = z3.Function(name, *[p.sort() for p in S.placeholders], sort)
        return f(*S.placeholders)
    return z3.Const(name, sort)


def feasible(c):
    S.solver.push()
    S.solver.add(c)
    r = S.solver.check()
    S.solver.pop()
    return r != z3.unsat


def implied(c):
    """does the path condition decide c?  True, False or None"""
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    if has_quant(c): return None
    if not feasible(z3.Not(c)): return True
    if not feasible(c): return False
    return None


def ite(c, a, b):
    """If(c, a, b), simplified under the path condition"""
    d = implied(c)
    return a if d is True else b if d is False else z3.If(c, a, b)


def branch(c):
    if isinstance(c, bool): return c
    c = z3.simplify(c)
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    ctx = S.ctx
    if ctx.pos < len(ctx.prefix):
        d = ctx.prefix[ctx.pos]
    else:
        q = has_quant(c)
        t = True if q else feasible(c)
        f = True if q else feasible(z3.Not(c))
        if t and f:
            d = True
            ctx.alts.append(ctx.taken + [False])
        elif t: d = True
        elif f: d = False
        else: raise PathEnd('infeasible')
    ctx.pos += 1
    ctx.taken.append(d)
    assume(c if d else z3.Not(c), True)
    return d


def is_fresh():
    c = S.ctx
    while c is not None:
        if not c.fresh: return False
        c = c.parent
    return True


def prove(goal, label, info=None):
    """record an obligation at this point of the path, then assume it."""
    if isinstance(goal, B): goal = goal.t
    if isinstance(goal, bool): goal = z3.BoolVal(goal)
    if is_fresh():
        S.obligations.append(Obligation(label, [t for t, _ in S.pc] + list(S.axioms.values()), goal, list(S.ctx.taken), info))
    if z3.is_false(goal): raise PathEnd('proved False')
    assume(goal)


def explore(fn, max_paths=None):
    """run fn once per path of the real control flow"""
    import time
    work = [[]]
    S.paths = 0
    while work:
        S.reset(work.pop())
        try:
            fn()
        except PathEnd:
            pass
        work.extend(S.ctx.alts)
        S.paths += 1
        if S.paths > (max_paths or S.max_paths): raise Unsupported('too many paths')
        if S.deadline and time.time() > S.deadline: raise Unsupported('path exploration exceeds its time budget')


def explore_sub(thunk, extra=(), placeholder=None):
    """All paths of an expression without side effects: [(cond, 'ret'|'exc', value)]."""
    outer = S.ctx
    res, work = [], [[]]
    mark, heap0, alloc0 = len(S.pc), dict(S.heap), S.alloc
    defs = []
    if placeholder is not None: S.placeholders.append(placeholder)
    n = 0
    try:
        while work:
            S.ctx = Ctx(work.pop(), outer)
            S.solver.push()
            for e in extra: assume(e, False)
            base = len(S.pc)
            kind = v = None
            try:
                v = thunk(); kind = 'ret'
            except PathEnd: pass
            except Exception as e: kind, v = 'exc', e
            decs = []
            for t, d in S.pc[base:]:
                if d: decs.append(t)
                else: defs.append(z3.Implies(z3.And(*decs), t) if decs else t)
            del S.pc[mark:]
            S.solver.pop()
            if set(S.heap) != set(heap0) or any(S.heap[k] is not heap0[k] and not S.heap[k].eq(heap0[k]) for k in heap0):
                for k in S.heap:
                    if k in heap0 and not S.heap[k].eq(heap0[k]): raise Unsupported('side effect in an expression')
            work += S.ctx.alts
            if kind: res.append((z3.And(*decs) if decs else z3.BoolVal(True), kind, v))
            n += 1
            if n > 500: raise Unsupported('too many paths in an expression')
    finally:
        S.ctx = outer
        if placeholder is not None: S.placeholders.pop()
    for d in defs:
        if placeholder is not None and _mentions(d, placeholder):
            rng = z3.And(*extra) if extra else z3.BoolVal(True)
            assume(z3.ForAll([placeholder], z3.Implies(rng, d)))
        else: assume(z3.Implies(z3.And(*extra), d) if extra else d)
    return res


def _mentions(t, c):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(c): return True
        todo.extend(x.children())
    return False


def patkw(*terms):
    """patterns=... for z3.ForAll, or nothing if a term may not occur in a pattern"""
    def ok(t):
        if z3.is_app(t):
            k = t.decl().kind()
            if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES): return False
            return all(ok(x) for x in t.children())
        return z3.is_var(t)
    ps = [t for t in terms if z3.is_app(t) and t.num_args() and ok(t)]
    return dict(patterns=ps) if ps and len(ps) == len(terms) else {}


# ---------------------------------------------------------------- scalars
def frac(x):
    if x != x or x in (float('inf'), float('-inf')): raise Unsupported('non-finite float')
    return Fraction(repr(x))


def lift(x):
    """python or symbolic number -> z3 arithmetic term; None if not a number"""
    if isinstance(x, Num): return x.t
    if isinstance(x, B): return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool): return z3.IntVal(int(x))
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, float):
        f = frac(x)
        return z3.RealVal(f'{f.numerator}/{f.denominator}')
    if isinstance(x, Fraction): return z3.RealVal(f'{x.numerator}/{x.denominator}')
    try:
        import numpy
        if isinstance(x, numpy.integer): return z3.IntVal(int(x))
        if isinstance(x, numpy.floating): return lift(float(x))
    except ImportError: pass
    return None


def real(t):
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def unify(a, b):
    if a.sort() != b.sort(): return real(a), real(b)
    return a, b


class B:
    """symbolic bool"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __bool__(self): return branch(self.t)
    def __repr__(self): return f'<B {self.t}>'
    def __hash__(self): raise Unsupported('hash of a symbolic bool')
    def __eq__(self, o):
        if isinstance(o, B): return B(self.t == o.t)
        if isinstance(o, bool): return B(self.t if o else z3.Not(self.t))
        if isinstance(o, (int, float, Num)): return Num(lift(self)) == o
        return False
    def __ne__(self, o): return not_(self.__eq__(o))
    def _n(self): return Num(lift(self))
    def __add__(self, o): return self._n() + o
    __radd__ = __add__
    def __mul__(self, o): return self._n() * o
    __rmul__ = __mul__
    def __sub__(self, o): return self._n() - o
    def __rsub__(self, o): return o - self._n()
    def __and__(self, o): return B(z3.And(self.t, tobool(o)))
    def __or__(self, o): return B(z3.Or(self.t, tobool(o)))
    __rand__, __ror__ = __and__, __or__
    def __invert__(self): raise Unsupported('~bool')
    def __deepcopy__(self, memo): return self


def mkB(t):
    t = z3.simplify(t) if not has_quant(t) else t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return B(t)


def tobool(x):
    if isinstance(x, B): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef): return x
    raise Unsupported(f'not a bool: {x!r}')


def not_(x):
    if isinstance(x, B): return mkB(z3.Not(x.t))
    return not x


def mk(t):
    """Num, or a python number when t is a literal"""
    if z3.is_int_value(t): return t.as_long()
    return Num(t)


class Num:
    """symbolic int or real"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    @property
    def is_int(self): return self.t.sort() == z3.IntSort()
    def __repr__(self): return f'<{self.t}>'
    def __str__(self): return '<sym>'
    def __format__(self, spec):
        if spec: raise Unsupported('format specification of a symbolic number')
        return token(self)
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __bool__(self): return branch(self.t != 0)
    def __hash__(self):
        v = self.const()
        if v is None: raise Unsupported('hash of a symbolic number')
        return hash(v)
    def const(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t): return t.as_long()
        if z3.is_rational_value(t): return float(Fraction(t.numerator_as_long(), t.denominator_as_long()))
        return None
    def __index__(self):
        v = self.const()
        if isinstance(v, int): return v
        raise Unsupported('symbolic index used natively')
    def __int__(self):
        v = self.const()
        if v is not None: return int(v)
        raise Unsupported('symbolic int() used natively')
    def __float__(self):
        v = self.const()
        if v is not None: return float(v)
        raise Unsupported('symbolic float() used natively')

    def _bin(self, o, f, swap=False):
        b = lift(o)
        if b is None: return NotImplemented
        a, b = unify(self.t, b)
        return mk(f(b, a) if swap else f(a, b))
    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return mk(-self.t)
    def __pos__(self): return self
    def __abs__(self): return mk(z3.If(self.t >= 0, self.t, -self.t))
    def __truediv__(self, o):
        b = lift(o)
        if b is None: return NotImplemented
        return divide(self.t, b)
    def __rtruediv__(self, o):
        b = lift(o)
        if b is None: return NotImplemented
        return divide(b, self.t)
    def __floordiv__(self, o): return floordiv(self, o)[0]
    def __rfloordiv__(self, o): return floordiv(o, self)[0]
    def __mod__(self, o): return floordiv(self, o)[1]
    def __rmod__(self, o): return floordiv(o, self)[1]
    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 8:
            r = 1
            for _ in range(o): r = self * r
            return r
        if o == 0.5: return sqrt(self)
        raise Unsupported('symbolic power')
    def __rpow__(self, o): raise Unsupported('symbolic exponent')
    def __round__(self, k=None): return rnd(self, k)
    def __trunc__(self): return to_int(self)
    def __lshift__(self, o): return self * (2 ** o) if isinstance(o, int) else self._un('<<')
    def __rshift__(self, o):
        if isinstance(o, int) and self.is_int: return self // (2 ** o)
        raise Unsupported('symbolic shift')
    def __and__(self, o):
        if isinstance(o, int) and self.is_int and o >= 0:
            if (o & (o + 1)) == 0: return self % (o + 1)
            r = 0
            for k in range(o.bit_length()):
                if o >> k & 1: r = r + (self // (1 << k)) % 2 * (1 << k)
            return r
        raise Unsupported('symbolic bit operation')
    __rand__ = __and__
    def _un(self, m): raise Unsupported(m)
    def _cmp(self, o, f):
        b = lift(o)
        if b is None: return NotImplemented
        a, b = unify(self.t, b)
        return mkB(f(a, b))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        b = lift(o)
        if b is None: return False
        return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o):
        b = lift(o)
        if b is None: return True
        return self._cmp(o, lambda a, b: a != b)


def divide(a, b):
    a, b = real(a), real(b)
    if branch(b == 0): raise ZeroDivisionError('division by zero')
    return Num(z3.simplify(a / b) if z3.is_rational_value(b) else a / b)


def floordiv(a, b):
    ta, tb = lift(a), lift(b)
    if ta.sort() != z3.IntSort() or tb.sort() != z3.IntSort():
        if branch(tb == 0): raise ZeroDivisionError
        q = z3.ToInt(real(ta) / real(tb))
        return mk(z3.ToReal(q)), mk(real(ta) - z3.ToReal(q) * real(tb))
    if branch(tb == 0): raise ZeroDivisionError
    if branch(tb > 0): return mk(ta / tb), mk(ta % tb)
    raise Unsupported('floor division by a negative symbolic number')


RND = z3.Function('RND', z3.RealSort(), z3.IntSort())
SQRT = z3.Function('SQRT', z3.RealSort(), z3.RealSort())


def _rnd(t):
    """RND(t): Python's round to nearest integer, known only to be within 1/2, monotone."""
    t = z3.simplify(t)
    if z3.is_rational_value(t):
        return z3.IntVal(round(Fraction(t.numerator_as_long(), t.denominator_as_long())))
    r = RND(t)
    h = z3.Q(1, 2)
    x, y = z3.Reals('x!rnd y!rnd')
    axiom('RND', z3.And(
        z3.ForAll([x], z3.And(z3.ToReal(RND(x)) <= x + h, x - h <= z3.ToReal(RND(x))), patterns=[RND(x)]),
        z3.ForAll([x, y], z3.Implies(x <= y, RND(x) <= RND(y)), patterns=[z3.MultiPattern(RND(x), RND(y))])))
    fact = z3.And(z3.ToReal(r) <= t + h, t - h <= z3.ToReal(r))
    if not S.placeholders: assume(fact)
    return r


def rnd(x, k=None):
    t = lift(x)
    if t is None: return round(x) if k is None else round(x, k)
    if t.sort() == z3.IntSort(): return x
    if k is None: return mk(_rnd(t))
    if not isinstance(k, int): raise Unsupported('symbolic digits in round')
    return Num(z3.ToReal(_rnd(t * 10 ** k)) / 10 ** k)


def as_int(t, q=Fraction(1)):
    """q * t as an integer term if it is evidently integral, else None"""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        v = q * (Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else t.as_long())
        return z3.IntVal(v.numerator) if v.denominator == 1 else None
    if z3.is_to_real(t): return as_int(t.arg(0), q)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = as_int(t.arg(1), q), as_int(t.arg(2), q)
        return z3.If(t.arg(0), a, b) if a is not None and b is not None else None
    if z3.is_add(t):
        xs = [as_int(c, q) for c in t.children()]
        return None if any(x is None for x in xs) else z3.Sum(*xs)
    if z3.is_mul(t):
        rest = []
        for c in t.children():
            if z3.is_rational_value(c): q = q * Fraction(c.numerator_as_long(), c.denominator_as_long())
            else: rest.append(c)
        return as_int(rest[0], q) if len(rest) == 1 else None
    if t.sort() == z3.IntSort() and q.denominator == 1: return z3.simplify(q.numerator * t)
    return None


def to_int(x):
    t = lift(x)
    if t.sort() == z3.IntSort(): return mk(t)
    n = as_int(z3.simplify(t))
    if n is not None: return mk(z3.simplify(n))
    return mk(z3.simplify(ite(t >= 0, z3.ToInt(t), -z3.ToInt(-t))))


def sqrt(x):
    t = real(lift(x))
    if branch(t < 0): raise ValueError('math domain error')
    r = SQRT(t)
    assume(z3.And(r >= 0, r * r == t))
    return Num(r)


def ceil_(x):
    t = real(lift(x))
    return mk(-z3.ToInt(-t))


def floor_(x):
    return mk(z3.ToInt(real(lift(x))))


S.__init__()
