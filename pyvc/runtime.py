"""Run-time support of transformed code: shadowed builtins, loops cut at invariants."""
import sys, operator, enum, builtins, z3
from . import core
from .core import *
from .core import S, Ctx
from .values import *
from .values import I, R_, _dyn
from . import values

LOOPS = {}          # loop key -> Loop spec


from .spec import Loop


class Poison:
    """a local whose value after the loop is unknown"""
    def __getattr__(self, n): raise Unsupported('use of a variable of unknown value')
    __bool__ = __call__ = __len__ = __iter__ = lambda self, *a: (_ for _ in ()).throw(Unsupported('use of a variable of unknown value'))

class _PoisonT(T):
    name = 'poison'
    def fresh(self, name='v'): return Poison()
PoisonT = _PoisonT()


class View:
    """names of a frame for invariants"""
    def __init__(self, d): self.__dict__['_d'] = d
    def __getattr__(self, n):
        if n in self._d: return self._d[n]
        raise MissingName(n)
    def has(self, n): return n in self._d

class MissingName(Exception): pass


class Snap:
    def __init__(self, o, d): self.__dict__.update(d)


def snap(v, deep=True):
    if isinstance(v, VList): return v.copy()
    if isinstance(v, PairSet): return PairSet(v.a)
    if isinstance(v, VSet): return VSet(v.a)
    d = getattr(v, '__dict__', None)
    if deep and isinstance(d, dict) and not isinstance(v, type) and not is_symobj(v) and (type(v).__module__.startswith('pdf2docx') or getattr(type(v), '_pyvc_stub', False)):
        return Snap(v, {k: snap(x, False) for k, x in d.items()})
    return v


# ------------------------------------------------------------------ write tracking
class Tracker:
    # a write counts when its iteration reaches the next one: what an iteration that leaves
    # the loop (break, return, raise) writes is never seen at the loop head
    def __init__(self, loop): self.loop, self.pending = loop, []
    def _rec(self, kind, what, extra=None): self.pending.append(self.loop.written(kind, what, extra))
    def heap_write(self, key, ref): self.pending.append(lambda: self.loop.heap_written(key, ref))
    def commit(self):
        for f in self.pending: f()
        self.pending = []
    def attr_write(self, o, name, v):
        p = self.loop.paths.get(id(o))
        if p is not None: self._rec('attr', (p, name), v)
    def list_write(self, l):
        if l.mode == 'h': return     # goes through heap_write
        p = self.loop.paths.get(id(l))
        if p is not None: self._rec('list', p, l)
    def obj_write(self, o):
        p = self.loop.paths.get(id(o))
        if p is not None: self._rec('obj', p, o)
    def rect_write(self, r):
        p = self.loop.paths.get(id(r))
        if p is not None: self._rec('obj', p, r)


def repo_frames():
    """frames running transformed code, outermost first"""
    f, out = sys._getframe(1), []
    while f is not None:
        if '_vc' in f.f_globals and f.f_globals.get('_vc_module'): out.append(f)
        f = f.f_back
    return out[::-1]


def reach(roots):
    """id -> (access path), objects kept alive in S.newobjs"""
    seen, objs = {}, {}
    todo = list(roots)
    while todo:
        path, o = todo.pop(0)
        if id(o) in seen: continue
        if isinstance(o, (int, float, str, bytes, type(None), Num, B, Str, enum.Enum, type)) and not isinstance(o, type): continue
        if isinstance(o, type):
            if o.__module__.startswith('pdf2docx'): seen[id(o)] = path; objs[path] = o
            continue
        if isinstance(o, VList):
            seen[id(o)] = path; objs[path] = o
            if o.mode == 'c': todo += [(f'{path}[{k}]', x) for k, x in enumerate(o.items)]
        elif isinstance(o, (VSet, MRect)): seen[id(o)] = path; objs[path] = o
        elif isinstance(o, VIter): todo.append((path + '.l', o.l))
        elif is_symobj(o): continue
        elif isinstance(o, dict):
            seen[id(o)] = path; objs[path] = o
            todo += [(f'{path}[{k!r}]', x) for k, x in o.items()]
        elif isinstance(o, (tuple, list)):
            todo += [(f'{path}({k})', x) for k, x in enumerate(o)]
        elif hasattr(o, '__dict__') and (type(o).__module__.startswith('pdf2docx') or getattr(type(o), '_pyvc_stub', False)):
            seen[id(o)] = path; objs[path] = o
            todo += [(f'{path}.{k}', x) for k, x in o.__dict__.items()]
        elif callable(o) and hasattr(o, '__self__') and not isinstance(o.__self__, type(sys)):
            todo.append((path + '.self', o.__self__))
        elif callable(o) and getattr(o, '__closure__', None):
            for k, c in enumerate(o.__closure__):
                try: todo.append((f'{path}.cell{k}', c.cell_contents))
                except ValueError: pass
    return seen, objs


class CutLoop:
    def __init__(self, key, lst, loc, names, is_for):
        self.key, self.lst, self.names, self.is_for = key, lst, names, is_for
        depth = len([1 for l in S.loopstack if l.key == key])
        self.mkey = (key, depth)
        self.spec = LOOPS.get(key)
        if self.spec is None: raise Unsupported(f'no invariant for the loop {key}')
        self.vals = {}
        self.state = 'new'
        self.mods = S.loop_mods.setdefault(self.mkey, {'locals': {}, 'attr': {}, 'list': {}, 'obj': {}, 'heap': {}})
        self.enter(loc)

    # ---- context for the invariant
    def ctx(self, loc, k):
        d = {n: v for n, v in loc.items() if not n.startswith('_h_t') and n != '_vc'}
        d['k_'] = Num(k) if k is not None else None
        d['n_'] = mk(self.n) if self.is_for else None
        d['seq_'] = self.lst
        d['pre_'] = self.pre
        d['entry_'] = self.entry_eval
        return View(d)

    def entry_eval(self, fn):
        h, S.heap = S.heap, dict(self.heap0)
        try: return fn()
        finally: S.heap = h

    def invs(self, loc, k):
        if self.spec.inv is None: return []
        try:
            out = self.spec.inv(self.ctx(loc, k))
        except MissingName as e:
            raise Unsupported(f'loop {self.key}: the invariant names {e}, which is not bound here')
        return [(l, t) for l, t in out]

    def enter(self, loc):
        fr = repo_frames()
        # the loop's own frame is the innermost one
        roots = [(f'{i}:{n}', v) for i, f in enumerate(fr) for n, v in f.f_locals.items() if not n.startswith('_h_t')]
        roots += [(f'arg:{n}', v) for n, v in S.ghost.get('roots', {}).items()]
        self.paths, self.objs = reach(roots)
        self.keep = list(self.objs.values())
        for p, l in self.objs.items():     # an element type for unspecified elements of empty lists
            if isinstance(l, VList) and l.mode == 'c' and not l.items and self.spec.types:
                et = self.spec.types.get(p.split(':', 1)[1].split('.')[-1]) or self.spec.types.get(p.split(':', 1)[1])
                if et is not None: l.et = et
        self.heap0 = dict(S.heap)
        self.alloc_in = S.alloc
        self.pre = View({**{n: snap(v) for n, v in S.ghost.get('roots', {}).items()}, **{n: snap(v) for n, v in loc.items()}})
        self.consts = set(S.counts.items())
        self.counts0 = dict(S.counts)
        if self.is_for: self.n = self.lst.nterm(); self.lst = self.lst.copy()
        # 1. invariant holds on entry
        k0 = z3.IntVal(0) if self.is_for else None
        for l, t in self.invs(loc, k0): prove(t, f'{self.key} invariant [{l}] holds on entry')
        # 2. arbitrary iteration: havoc everything the loop may write
        self.havoc(loc)
        loc = dict(loc); loc.update(self.vals)
        self.loc = loc
        # 3. assume the invariant
        if self.is_for:
            self.k = fresh('k', I)
            assume(z3.And(self.k >= 0, self.k <= self.n))
        else: self.k = None
        for l, t in self.invs(loc, self.k): assume(t)
        self.old_dec = self.spec.decreases(self.ctx(loc, self.k)) if self.spec.decreases else None
        self.tracker = Tracker(self)

    def havoc(self, loc):
        m = self.mods
        for n in self.names:
            if n not in loc: continue
            t = m['locals'].get(n)
            if t is None: continue     # not (yet) known to be changed by an iteration
            self.vals[n] = self.spec.types[n].fresh(n) if n in self.spec.types else t.fresh(n)
        for (p, a), t in m['attr'].items():
            o = self.objs.get(p)
            if o is None: raise Unsupported(f'loop writes {p}.{a}, which is not found on entry')
            v = t.fresh(a)
            for tr in S.track: tr.attr_write(o, a, v)
            setattr(o, a, v)
        for p, t in m['list'].items():
            l = self.objs.get(p)
            if l is None: raise Unsupported(f'loop writes list {p}, which is not found on entry')
            if l.mode == 'h':
                raise Unsupported('list became shared in the loop')
            et = self.spec.types.get(p.split(':', 1)[1].split('.')[-1]) or self.spec.types.get(p.split(':', 1)[1]) or t
            if isinstance(et, List): et = et.et
            if et is None: raise Unsupported(f'element type of {p} unknown')
            for tr in S.track: tr.list_write(l)
            f = et.fresh_fn('el')
            n = fresh('len', I); assume(n >= 0)
            l.mode, l.n, l.leaf, l.et = 's', n, f, et
        for p in m['obj']:
            o = self.objs.get(p)
            if isinstance(o, VSet):
                for tr in S.track: tr.obj_write(o)
                o.a = fresh('set', o.a.sort())
            elif isinstance(o, MRect):
                raise Unsupported('in-place rect update in a loop')
            else: raise Unsupported(f'dict {p} is written in a loop')
        if m['heap'] or m.get('alloc'):
            a = fresh('alloc', I)
            assume(a >= S.alloc)
            for key, info in m['heap'].items():
                old = hget(key, info['sort'])
                S.heap[key] = fresh('H', old.sort())
                r = z3.Int('r!frame')
                allowed = []
                if not info['any']:
                    for t in info['refs'].values(): allowed.append(r == t)
                    for (t, kc, rng) in info['elem'].values():
                        j = z3.Int('j!frame')
                        allowed.append(z3.Exists([j], z3.And(j >= 0, j < self.n, r == z3.substitute(t, (kc, j)))))
                    assume(z3.ForAll([r], z3.Implies(z3.And(r <= self.alloc_in, *[z3.Not(x) for x in allowed]),
                           z3.Select(S.heap[key], r) == z3.Select(old, r)), patterns=[z3.Select(S.heap[key], r)]))
                for tr in S.track: tr.loop.heap_from_inner(key, info)
            S.alloc = a

    # ---- writes observed in the body
    def written(self, kind, what, v):
        """-> what to do when the iteration goes on"""
        d = self.mods[kind]
        if kind == 'attr':
            p, a = what
            cur = self.objs[p].__dict__.get(a) if not isinstance(self.objs[p], type) else getattr(self.objs[p], a, None)
            try: t0 = typeof(v) if cur is None and a not in getattr(self.objs[p], '__dict__', {}) else join(typeof(cur), typeof(v))
            except Unsupported as e: t0 = e
        elif kind == 'list': t0 = (typeof(v).et if v.mode == 'c' else None) or v.et
        else: t0 = True
        def commit():
            if isinstance(t0, Unsupported): raise t0
            t = join(d[what], t0) if kind == 'attr' and what in d else t0
            if what not in d or kind == 'attr' and d[what].name != t.name:
                d[what] = t; raise Restart(f'{self.key} writes {what}')
        return commit

    def note_elem(self, v, l):
        """element type of a list that is appended to in the loop"""
        p = self.paths.get(id(l))
        if p is None: return

    def heap_written(self, key, ref):
        d = self.mods['heap']
        sort = S.heap[key].sort().range() if key in S.heap else None
        info = d.get(key)
        changed = info is None
        if info is None: info = d[key] = {'sort': sort, 'any': False, 'refs': {}, 'elem': {}}
        if not info['any']:
            cs = constants(ref)
            newc = [c for c in cs if self.is_new(c)]
            if not newc:
                if ref.sexpr() not in info['refs']: info['refs'][ref.sexpr()] = ref; changed = True
            elif self.fresh_ref(ref): pass
            elif self.is_for and len(newc) == 1 and newc[0].eq(self.k):
                if ref.sexpr() not in info['elem']: info['elem'][ref.sexpr()] = (ref, self.k, None); changed = True
            else:
                info['any'] = True; changed = True
        if changed: raise Restart(f'{self.key} writes heap {key}')

    def heap_from_inner(self, key, inner):
        d = self.mods['heap']
        info = d.get(key)
        changed = info is None
        if info is None: info = d[key] = {'sort': inner['sort'], 'any': False, 'refs': {}, 'elem': {}}
        if not info['any']:
            if inner['any'] or inner['elem'] : info['any'] = changed = True
            for s, t in inner['refs'].items():
                if any(self.is_new(c) for c in constants(t)):
                    if self.fresh_ref(t): continue
                    if not info['any']: info['any'] = changed = True
                elif s not in info['refs']: info['refs'][s] = t; changed = True
        if changed: raise Restart('inner loop writes heap')

    def is_new(self, c):
        nm = c.decl().name()
        if '!' not in nm: return False
        base, _, num = nm.rpartition('!')
        num = num.split('.')[0]
        try: num = int(num)
        except ValueError: return True
        if base in ('H0',): return False
        return num >= self.counts0.get(base, 0)

    def fresh_ref(self, ref):
        """syntactically alloc_in_iteration + c, i.e. allocated in the loop"""
        r = z3.simplify(ref)
        base = z3.simplify(ref - S.alloc)
        return z3.is_int_value(base) and base.as_long() <= 0 and any(c.decl().name().startswith('alloc!') and self.is_new(c) for c in constants(r))

    # ---- protocol
    def __iter__(self): return self

    def __next__(self):
        if self.state == 'new':
            if branch(self.k < self.n):
                self.state = 'body'
                S.loopstack.append(self)
                S.track.append(self.tracker)
                self.alloc_body = S.alloc
                self.stubs0 = self.stubs()
                return self.lst.raw(self.k)
            self.state = 'done'
            assume(self.k == self.n)
            raise StopIteration
        self.end(sys._getframe(1).f_locals, z3.simplify(self.k + 1))

    def step(self):
        if self.state == 'new':
            self.state = 'body'
            S.loopstack.append(self)
            S.track.append(self.tracker)
            self.stubs0 = self.stubs()
            return True
        self.end(sys._getframe(1).f_locals, None)

    def close(self):
        """the loop is left: stop tracking writes"""
        if self in S.loopstack: S.loopstack.remove(self)
        if self.tracker in S.track: S.track.remove(self.tracker)

    def stubs(self):
        """attributes of ghost objects and stand-ins: contract code writes them, unseen by the tracker"""
        return {p: dict(o.__dict__) for p, o in self.objs.items() if getattr(type(o), '_pyvc_stub', False) and not is_symobj(o) and hasattr(o, '__dict__') and not type(o).__module__.startswith('pyvc.')}

    def end(self, loc, k):
        for p, now in self.stubs().items():
            for a, v in now.items():
                if a not in self.stubs0[p] or self.stubs0[p][a] is not v and not (type(v) in (int, float, str, bool) and type(v) is type(self.stubs0[p][a]) and v == self.stubs0[p][a]):
                    self.tracker.attr_write(self.objs[p], a, v)
        self.tracker.commit()
        # types of locals changed by the iteration
        loc = dict(loc)
        for n in self.names:
            if n in self.loc and n in loc:
                a, b = self.loc[n], loc[n]
                if a is b and n in self.vals or a is b: continue
                try:
                    t = join(typeof(self.pre._d[n]), typeof(b))
                    if n in self.mods['locals']: t = join(self.mods['locals'][n], t)
                except Unsupported: t = PoisonT
                if n not in self.mods['locals'] or self.mods['locals'][n].name != t.name:
                    self.mods['locals'][n] = t
                    raise Restart(f'{self.key} changes {n}')
        if S.alloc is not self.alloc_in and not self.mods.get('alloc') and not z3.simplify(S.alloc).eq(z3.simplify(self.alloc_in)) and not self.mods['heap']:
            self.mods['alloc'] = True
            raise Restart('loop allocates')
        for l, t in self.invs(loc, k): prove(t, f'{self.key} invariant [{l}] is preserved')
        if self.old_dec is not None:
            new = self.spec.decreases(self.ctx(loc, k))
            o, w = lift(self.old_dec), lift(new)
            prove(mkB(z3.And(o >= 0, w < o)), f'{self.key} variant decreases')
        raise PathEnd('end of the arbitrary iteration')


def constants(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args(): 
            out.append(z3.Const(x.decl().name(), x.sort())) if '!' in x.decl().name() else None
        todo.extend(x.children())
    return out


class Native:
    vals = {}
    def __init__(self, it): self.it = it
    def __iter__(self): return iter(self.it)
    def close(self): pass

class NativeWhile:
    vals = {}
    def __init__(self, key): self.key, self.n = key, 0
    def step(self):
        self.n += 1
        if self.n > 200: raise Unsupported(f'while loop {self.key} without invariant does not terminate symbolically')
        return True
    def close(self): pass


class RT:
    """the object `_vc` in transformed modules"""
    def for_enter(self, key, it, loc, names):
        if isinstance(it, (VList, VRange, VIter)) or not hasattr(it, '__next__'):
            l = tolist(it)
            items = conc(l)
            if items is None: return CutLoop(key, l, loc, names, True)
            return Native(list(items))
        return Native(it)

    def boolfn(self, f):
        import functools
        @functools.wraps(f)
        def g(o):
            r = f(o)
            return branch(tobool(r)) if isinstance(r, B) else builtins.bool(r)
        g._raw = f
        return g

    def while_enter(self, key, loc, names):
        if key in LOOPS: return CutLoop(key, None, loc, names, False)
        return NativeWhile(key)

    def setattr(self, o, n, v): set_attr(o, n, v)
    def setitem(self, o, i, v):
        if isinstance(o, dict):
            for tr in S.track: tr.obj_write(o)
        o[i] = v
    def getitem(self, o, i):
        if isinstance(i, (Num, Str, SymEnum)):
            if type(o) is dict:
                for k in o:
                    if branch(tobool(veq(k, i))): return o[k]
                raise KeyError(i)
            if isinstance(o, (tuple, list, str)) and isinstance(i, Num):
                for k in range(-len(o), len(o)):
                    if branch(i.t == k): return o[k]
                raise IndexError('index out of range')
        return o[i]
    def get(self, o, k, *d):
        if type(o) is dict and isinstance(k, (Num, Str, SymEnum)):
            for x in o:
                if branch(tobool(veq(x, k))): return o[x]
            return d[0] if d else None
        return o.get(k, *d)
    def set(self, o, k, v):
        if isinstance(v, Str) and hasattr(o, 'nsmap'): v = format(v)   # an XML attribute
        return o.set(k, v)
    def update(self, o, v):
        if isinstance(o, dict):
            for tr in S.track: tr.obj_write(o)
        if isinstance(o, dict) and isinstance(v, VList): v = dict(list(v))
        return o.update(v)

    def iop(self, op, a, b):
        return {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
                'BitOr': operator.ior, 'BitAnd': operator.iand, 'Mod': operator.imod, 'FloorDiv': operator.ifloordiv, 'Pow': operator.ipow}[op](a, b)

    def unpack(self, v, n):
        if isinstance(v, (tuple, list)) or n < 0: return v
        s = seq(v) if isinstance(v, (VList, MRect)) else v
        return s

    def flat(self, v, shape):
        def go(v, s):
            if isinstance(s, str): return [v]
            v = seq(v)
            return [y for x, t in zip(v, s) for y in go(x, t)]
        return go(v, eval(shape))

    def star(self, v): return seq(tolist(v)) if not isinstance(v, tuple) else v

    # boolean structure
    def _spec(self, thunk, cond):
        """value of a pure boolean thunk under cond as a term, or None"""
        try: res = explore_sub(thunk, [cond])
        except Unsupported: return None
        if any(k == 'exc' for _, k, _ in res): return None
        if not all(isinstance(v, (bool, B)) for _, _, v in res): return None
        r = z3.BoolVal(False)
        for c, _, v in res: r = z3.Or(r, z3.And(c, tobool(v)))
        return z3.simplify(r)

    def and_(self, pure, v, *ths):
        for th in ths:
            if isinstance(v, B):
                if pure:
                    r = self._spec(th, v.t)
                    if r is not None: v = mkB(z3.And(v.t, r)); continue
                if not v: return False
            elif not v: return v
            v = th()
        return v

    def or_(self, pure, v, *ths):
        for th in ths:
            if isinstance(v, B):
                if pure:
                    r = self._spec(th, z3.Not(v.t))
                    if r is not None: v = mkB(z3.Or(v.t, r)); continue
                if v: return True
            elif v: return v
            v = th()
        return v

    def test(self, v):
        """value of a condition: objects whose __bool__ or __len__ may be symbolic"""
        if type(v).__module__.startswith('pdf2docx') or is_symobj(v):
            t = type(v)
            if hasattr(t, '__bool__') or hasattr(t, '__len__'): return mkB(truth(v))
        return v

    def not_(self, v):
        v = self.test(v)
        if isinstance(v, B): return mkB(z3.Not(v.t))
        return not v

    def ite(self, pure, c, a, b):
        if isinstance(c, B) and pure:
            try:
                ra, rb = explore_sub(a, [c.t]), explore_sub(b, [z3.Not(c.t)])
                if all(k == 'ret' for _, k, _ in ra + rb):
                    vals = [v for _, _, v in ra + rb]
                    if vals and all(isinstance(v, (int, float, bool, Num, B, SymEnum, MRect, Str, str)) and not isinstance(v, enum.Enum) for v in vals):
                        return merge([(z3.And(c.t, x), v) for x, _, v in ra] + [(z3.And(z3.Not(c.t), x), v) for x, _, v in rb])
            except Unsupported: pass
        return a() if c else b()

    def is_(self, a, b): return is_(a, b)
    def isnot(self, a, b): return not_(is_(a, b))
    def eq(self, a, b): return veq(a, b)
    def ne(self, a, b): return not_(veq(a, b))
    def in_(self, a, b):
        if isinstance(b, (VList, VSet, VRange)): return b.has(a)
        if isinstance(b, (VIter,)): return b.rest().has(a)
        if isinstance(b, MRect): return b._has(a)
        if isinstance(b, (tuple, list, set, frozenset)): 
            r = z3.BoolVal(False)
            for x in b: r = z3.Or(r, tobool(veq(x, a)))
            return mkB(r)
        if isinstance(b, dict):
            if isinstance(a, (Str, Num, SymEnum)): return mkB(z3.Or([tobool(veq(k, a)) for k in b] or [z3.BoolVal(False)]))
            return a in b
        if isinstance(b, Str): return mkB(z3.Contains(b.t, strlift(a)))
        if isinstance(a, Str) and isinstance(b, str): return mkB(z3.Contains(z3.StringVal(b), a.t))
        return a in b
    def notin(self, a, b): return not_(self.in_(a, b))

    # comprehensions
    def comp(self, it, f, conds):
        l = tolist(it)
        for c in conds: l = vfilter(c, l)
        return vmap(f, l)
    def compflat(self, it, f, conds):
        l = tolist(it)
        for c in conds: l = vfilter(c, l)
        items = conc(l)
        if items is None: raise Unsupported('nested comprehension over a symbolic list')
        out = VList()
        for x in items: out = out + tolist(f(x))
        return out
    def yields(self): return VList()
    def genexp(self, th): return VIter(th())
    def mklist(self, t): return VList([x for x in t])
    def mkset(self, l): return vset(l)
    def mkdict(self, l): return dict(list(tolist(l)))

    def fstr(self, *parts):
        out, sym = [], False
        for p in parts:
            if isinstance(p, str): out.append(p); continue
            v, conv, spec = p
            if isinstance(v, (Num, B)):
                out.append(Str(z3.Function('str_of_' + str(lift(v).sort()) + spec, lift(v).sort(), z3.StringSort())(lift(v)))); sym = True
            elif isinstance(v, Str): out.append(v); sym = True
            else: out.append((f'{{:{spec}}}' if conv == -1 else ('{!r:' + spec + '}' if conv == ord('r') else '{!s:' + spec + '}')).format(v))
        if not sym: return ''.join(out)
        r = z3.Concat(*[strlift(x) for x in out]) if len(out) > 1 else strlift(out[0])
        return mkstr(r)

    def join(self, sep, arg):
        if isinstance(sep, (str, Str)):
            l = tolist(arg)
            items = conc(l)
            if items is not None:
                r = None
                for x in items:
                    if not isinstance(x, (str, Str)): raise TypeError('expected str')
                    r = x if r is None else r + sep + x
                return '' if r is None else r
            if sep == '':
                q = S.counts.get('cat', 0); S.counts['cat'] = q + 1
                f = z3.Function(f'cat!{q}', I, z3.StringSort())
                k = z3.Int('k!cat'); src = l.leaf_fn()
                assume(f(0) == z3.StringVal(''))
                assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < l.nterm()), f(k + 1) == z3.Concat(f(k), src(k)[0])), patterns=[f(k + 1)]))
                return mkstr(f(l.nterm()))
            raise Unsupported('join of a symbolic list')
        return sep.join(arg)


# ------------------------------------------------------------------ shadowed builtins
def v_len(x):
    if isinstance(x, (VList, VRange, Str, VSet)) or getattr(type(x), '_pyvc_stub', False) and hasattr(x, 'vlen'): return x.vlen()
    if isinstance(x, VIter): raise TypeError('len of an iterator')
    m = getattr(type(x), '__len__', None)
    if m is not None and (type(x).__module__.startswith('pdf2docx') or is_symobj(x)): return m(x)
    return builtins.len(x)

def v_pt(x):
    """model of docx.shared.Pt: points to EMU, truncated"""
    if isinstance(x, Num): return to_int(x * 12700)
    import docx.shared
    return docx.shared.Pt(x)

class RGB(tuple):
    """model of docx.shared.RGBColor"""
    def __new__(cls, r, g, b):
        for v in (r, g, b):
            if isinstance(v, Num):
                if branch(z3.Or(v.t < 0, v.t > 255)): raise ValueError('RGBColor() takes three integer values 0-255')
        return tuple.__new__(cls, (r, g, b))

def v_rgb(r, g, b):
    if not any(isinstance(v, Num) for v in (r, g, b)):
        import docx.shared
        return docx.shared.RGBColor(r, g, b)
    return RGB(r, g, b)

def v_hex(x):
    if isinstance(x, Num):
        if not branch(x.t >= 0): raise Unsupported('hex of a negative number')
        return Hex(x, prefix=True)
    return builtins.hex(x)

def v_int(x=0, *a):
    if isinstance(x, Hex):
        if a != (16,) or x.prefix: raise Unsupported('int of symbolic digits')
        return x.n
    if isinstance(x, Num): return to_int(x)
    if isinstance(x, B): return Num(lift(x))
    if isinstance(x, Str):
        if a: return mk(z3.Function(f'int_base{a[0]}', z3.StringSort(), I)(x.t))
        raise Unsupported('int(str)')
    return builtins.int(x, *a)

def v_float(x=0.0):
    if isinstance(x, Num): return Num(real(x.t))
    if isinstance(x, B): return Num(real(lift(x)))
    if isinstance(x, (Str,)): raise Unsupported('float(str)')
    return builtins.float(x)

def v_round(x, k=None):
    if isinstance(x, Num): return rnd(x, k)
    return builtins.round(x) if k is None else builtins.round(x, k)

def v_abs(x): return builtins.abs(x)
def v_bool(x=False):
    if isinstance(x, B): return x
    if isinstance(x, (Num, MRect, VList, Str)): return mkB(truth(x))
    return builtins.bool(x)
def v_str(x=''):
    if isinstance(x, Str): return x
    if isinstance(x, Num): return Str(z3.Function('str_of_' + str(x.t.sort()), x.t.sort(), z3.StringSort())(x.t), x)
    return builtins.str(x)
def v_sum(x, start=0): return vsum(tolist(x), start)
def v_any(x): return vany(tolist(x))
def v_all(x): return vall(tolist(x))
def v_min(*a, key=None, default=None, **k): return vminmax(a, key, False, default, 'default' in k or default is not None)
def v_max(*a, key=None, default=None, **k): return vminmax(a, key, True, default, default is not None)
def v_sorted(x, key=None, reverse=False): return vsorted(x, key, reverse)
def v_reversed(x): return VIter(vreversed(x))
def v_range(*a):
    if all(isinstance(x, int) for x in a): return builtins.range(*a)
    if any(isinstance(x, float) for x in a): raise TypeError('float range')
    return VRange(*a)
def v_enumerate(x, start=0):
    l = tolist(x)
    items = conc(l)
    if items is not None: return VIter(VList([(start + i, v) for i, v in builtins.enumerate(items)]))
    f = l.leaf_fn()
    return VIter(VList.sym(l.nterm(), lambda i: [i + lift(start)] + f(i), Tup(Int, l.et)))
def v_zip(*xs):
    ls = [tolist(x) for x in xs]
    its = [conc(l) for l in ls]
    if all(i is not None for i in its): return VIter(VList(list(zip(*its))))
    n = ls[0].nterm()
    for l in ls[1:]: n = zmin(n, l.nterm())
    ets = [l.etype() for l in ls]
    fs = [l.leaf_fn(t) for l, t in zip(ls, ets)]
    return VIter(VList.sym(z3.simplify(n), lambda i: [x for f in fs for x in f(i)], Tup(*ets)))
def v_map(f, *xs):
    if len(xs) > 1: return VIter(vmap(lambda t: f(*t), tolist(v_zip(*xs))))
    return VIter(vmap(f, tolist(xs[0])))
def v_filter(f, x): return VIter(vfilter(f, tolist(x)))
def v_list(x=()): return tolist(x).copy()
def v_tuple(x=()):
    if isinstance(x, MRect): return x.c
    l = tolist(x)
    items = conc(l)
    if items is not None: return tuple(items)
    r = l.copy(); r.tuple = True
    return r
class VUniq:
    """set of the values of a symbolic list: each value once, in some order"""
    def __init__(self, l):
        self.l = l
        f, n, et = l.leaf_fn(), l.nterm(), l.etype()
        c = S.counts.get('uniq', 0); S.counts['uniq'] = c + 1
        el = z3.Function(f'uniq!{c}', I, et.sorts[0])
        src, pos = z3.Function(f'uniqsrc!{c}', I, I), z3.Function(f'uniqpos!{c}', I, I)
        m, k = fresh('card', I), z3.Int('k!uniq')
        assume(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
        assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(src(k) >= 0, src(k) < n, f(src(k))[0] == el(k), pos(src(k)) == k)), patterns=[el(k)]))
        assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(pos(k) >= 0, pos(k) < m, el(pos(k)) == f(k)[0])), patterns=[pos(k)]))
        self.posof = pos
        self.list = VList.sym(m, lambda i: [el(i)], et)
    def __iter__(self): return iter(self.list)


def vset(x=()):
    if isinstance(x, VSet): return VSet(x.a)
    l = tolist(x)
    items = conc(l)
    if items is not None and all(not isinstance(i, (Num, VList, SymEnum)) and not (hasattr(type(i), '_pyvc_real')) for i in items) and items: return builtins.set(items)
    if items is not None:
        s = VSet()
        for i in items:
            if lift(i) is None: raise Unsupported('set of non-ints')
            s.a = z3.Store(s.a, lift(i), z3.BoolVal(True))
        return s
    if l.etype() is Real: return VUniq(l)
    if l.etype() is not Int: raise Unsupported('set of a symbolic list')
    # characteristic function of the elements
    f, n = l.leaf_fn(), l.nterm()
    a = fresh('setof', z3.ArraySort(I, BS))
    c = S.counts.get('wit', 0); S.counts['wit'] = c + 1
    w = z3.Function(f'wit!{c}', I, I)
    k = z3.Int('k!set')
    el = f(k)[0]
    assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.Select(a, el)), **patkw(el)))
    assume(z3.ForAll([k], z3.Implies(z3.Select(a, k), z3.And(w(k) >= 0, w(k) < n, f(w(k))[0] == k)), patterns=[z3.Select(a, k)]))
    return VSet(a)
def v_iter(x): return VIter(tolist(x))
def v_next(it, *d):
    try: return builtins.next(it)
    except StopIteration:
        if d: return d[0]
        raise
def v_print(*a, **k): pass
def v_hasattr(o, n):
    if is_symobj(o):
        return builtins.hasattr(o._cls, n) or field_type(o._cls, n) is not None
    return builtins.hasattr(o, n)
def v_getattr(o, n, *d):
    if is_symobj(o) and d and not v_hasattr(o, n): return d[0]
    return builtins.getattr(o, n, *d)
def v_setattr(o, n, v): set_attr(o, n, v)

_MAP = {}
def v_isinstance(x, t):
    if isinstance(t, tuple): 
        return builtins.any(v_isinstance(x, s) for s in t)
    t = _MAP.get(t, t)
    if t is builtins.list: return isinstance(x, (list,)) or (isinstance(x, VList) and not x.tuple)
    if t is builtins.tuple: return isinstance(x, tuple) or (isinstance(x, VList) and x.tuple)
    if t is builtins.int: return isinstance(x, (int, B)) or (isinstance(x, Num) and x.is_int)
    if t is builtins.float: return isinstance(x, float) or (isinstance(x, Num) and not x.is_int)
    if t is builtins.str: return isinstance(x, (str, Str))
    if t is builtins.bool: return isinstance(x, (bool, B))
    if t is builtins.set: return isinstance(x, (set, VSet))
    if getattr(t, '__name__', '') == 'Iterable': return isinstance(x, (VList, VIter, VRange, MRect)) or (builtins.isinstance(x, t) if not is_symobj(x) else hasattr(type(x), '__iter__'))
    return builtins.isinstance(x, t)
def v_type(x):
    return realclass(x) if not isinstance(x, (Num,)) else (int if x.is_int else float)

def v_deque(x=()): return v_list(x)

SHADOW = dict(hex=v_hex, len=v_len, int=v_int, float=v_float, round=v_round, bool=v_bool, str=v_str, sum=v_sum, any=v_any, all=v_all,
              min=v_min, max=v_max, sorted=v_sorted, reversed=v_reversed, range=v_range, enumerate=v_enumerate, zip=v_zip,
              map=v_map, filter=v_filter, list=v_list, tuple=v_tuple, set=vset, iter=v_iter, next=v_next, print=v_print,
              hasattr=v_hasattr, getattr=v_getattr, setattr=v_setattr, isinstance=v_isinstance, type=v_type)
for n in ('int', 'float', 'bool', 'str', 'list', 'tuple', 'set'):
    _MAP[SHADOW[n]] = getattr(builtins, n)


def _locals():
    f = sys._getframe(1)
    return {k: v for k, v in f.f_locals.items() if not k.startswith('_h_t') and not k.startswith('_t')}

_vc = RT()
