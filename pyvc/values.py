"""Symbolic containers, objects, the heap, and value types."""
import z3, enum
from .core import *
from .core import S, _mentions, _rnd

I, R_, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


# ------------------------------------------------------------------ heap
def hget(key, sort):
    if key not in S.heap:
        S.heap[key] = z3.Const(f'H0:{key}', z3.ArraySort(I, sort))
    return S.heap[key]

def hread(key, sort, ref):
    return z3.simplify(z3.Select(hget(key, sort), ref))

def hwrite(key, sort, ref, val):
    a = hget(key, sort)
    for tr in S.track: tr.heap_write(key, ref)
    S.heap[key] = z3.Store(a, ref, val)

def allocate():
    if S.placeholders: raise Unsupported('allocation inside a summarised expression')
    S.alloc = z3.simplify(S.alloc + 1)
    S.nalloc += 1
    return S.alloc


# ------------------------------------------------------------------ types
class T:
    sorts = ()
    name = '?'
    def __repr__(self): return self.name
    def fresh(self, name='v'):
        v = self.wrap([fresh(f'{name}{"." + str(j) if len(self.sorts) > 1 else ""}', s) for j, s in enumerate(self.sorts)])
        return v
    def fresh_fn(self, name):
        """leaf functions over an index"""
        n = S.counts.get(name, 0); S.counts[name] = n + 1
        fs = [z3.Function(f'{name}!{n}.{j}', I, s) for j, s in enumerate(self.sorts)]
        if S.placeholders: raise Unsupported('list allocation inside a summarised expression')
        return lambda i: [f(i) for f in fs]
    def wf(self, terms): return []

class _Int(T):
    sorts, name = (I,), 'int'
    def wrap(self, ts): return mk(ts[0])
    def leaves(self, v):
        t = lift(v)
        if t is None or t.sort() != I: raise Unsupported(f'not an int: {v!r}')
        return [t]

class _Real(T):
    sorts, name = (R_,), 'real'
    def wrap(self, ts): return Num(ts[0])
    def leaves(self, v):
        t = lift(v)
        if t is None: raise Unsupported(f'not a number: {v!r}')
        return [real(t)]

class _Bool(T):
    sorts, name = (BS,), 'bool'
    def wrap(self, ts): return mkB(ts[0])
    def leaves(self, v): return [tobool(v)]

class _Str(T):
    sorts, name = (z3.StringSort(),), 'str'
    def wrap(self, ts): return mkstr(ts[0])
    def leaves(self, v):
        t = strlift(v)
        if t is None: raise Unsupported(f'not a str: {v!r}')
        return [t]

class _None(T):
    sorts, name = (), 'none'
    def wrap(self, ts): return None
    def leaves(self, v):
        if v is not None: raise Unsupported('not None')
        return []

class _Rect(T):
    sorts, name = (R_,) * 4, 'rect'
    def wrap(self, ts): return MRect(*[Num(t) for t in ts])
    def leaves(self, v): return [real(lift(v[j])) for j in range(4)]

class Tup(T):
    def __init__(self, *ts):
        self.ts = ts
        self.sorts = tuple(s for t in ts for s in t.sorts)
        self.name = '(' + ','.join(t.name for t in ts) + ')'
    def wrap(self, terms):
        out, p = [], 0
        for t in self.ts:
            out.append(t.wrap(terms[p:p + len(t.sorts)])); p += len(t.sorts)
        return tuple(out)
    def leaves(self, v):
        if isinstance(v, VList) and v.mode == 'c': v = tuple(v.items)
        if not isinstance(v, tuple) or len(v) != len(self.ts): raise Unsupported(f'not a {len(self.ts)}-tuple: {v!r}')
        return [x for t, e in zip(self.ts, v) for x in t.leaves(e)]
    def wf(self, terms):
        out, p = [], 0
        for t in self.ts:
            out += t.wf(terms[p:p + len(t.sorts)]); p += len(t.sorts)
        return out

class RecordV:
    """dict of fixed keys, read only"""
    _pyvc_stub = True
    def __init__(self, d): self.__dict__['d'] = d
    def __getitem__(self, k): return self.d[k]
    def get(self, k, v=None): return self.d.get(k, v)
    def keys(self): return self.d.keys()
    def __contains__(self, k): return k in self.d
    def __setitem__(self, k, v): raise Unsupported('write to an element of a list of dicts')
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'dict.{n} on an element of a list of dicts')
    def __setattr__(self, n, v): raise Unsupported('attribute of a dict')

class Record(Tup):
    def __init__(self, **ts):
        super().__init__(*ts.values()); self.keys = list(ts); self.name = '{' + ','.join(f'{k}:{t.name}' for k, t in ts.items()) + '}'
    def wrap(self, terms): return RecordV(dict(zip(self.keys, super().wrap(terms))))
    def leaves(self, v):
        d = v.d if isinstance(v, RecordV) else v
        if not isinstance(d, dict) or set(d) != set(self.keys): raise Unsupported('dict of other keys')
        return super().leaves(tuple(d[k] for k in self.keys))

class Fix(Tup):
    """list of fixed length"""
    def __init__(self, *ts):
        super().__init__(*ts); self.name = '[' + self.name[1:-1] + ']'
    def wrap(self, terms): return VList(list(super().wrap(terms)))
    def leaves(self, v):
        if isinstance(v, VList) and v.mode == 'c' and len(v.items) == len(self.ts): return super().leaves(tuple(v.items))
        raise Unsupported('fixed-length list expected')

class Opt(T):
    def __init__(self, t):
        self.t = t
        self.sorts = (BS,) + tuple(t.sorts)
        self.name = t.name + '?'
    def wrap(self, ts):
        if branch(ts[0]): return None
        return self.t.wrap(ts[1:])
    def leaves(self, v):
        if v is None: return [z3.BoolVal(True)] + [default(s) for s in self.t.sorts]
        return [z3.BoolVal(False)] + self.t.leaves(v)

class EnumT(T):
    sorts = (I,)
    def __init__(self, cls): self.cls, self.name = cls, cls.__name__
    def wrap(self, ts): return mkenum(self.cls, ts[0])
    def leaves(self, v):
        if isinstance(v, SymEnum): return [v.t]
        if isinstance(v, self.cls): return [z3.IntVal(list(self.cls).index(v))]
        raise Unsupported(f'not a {self.name}')
    def fresh(self, name='v'):
        t = fresh(name, I)
        assume(z3.And(t >= 0, t < len(list(self.cls))))
        return self.wrap([t])
    def wf(self, ts): return [ts[0] >= 0, ts[0] < len(list(self.cls))]

class Obj(T):
    """reference to an object of one of the classes; may be None if null"""
    sorts = (I,)
    def __init__(self, *classes, null=False):
        self.classes, self.null = classes, null
        self.name = '|'.join(c.__name__ for c in classes) + ('?' if null else '')
    def wrap(self, ts):
        r = ts[0]
        if self.null:
            if branch(r == 0): return None
        cs = self.classes
        for c in cs[:-1]:
            if branch(cls_is(r, c)): return symobj(c, r)
        return symobj(cs[-1], r, tag=len(cs) > 1)
    def leaves(self, v):
        if v is None:
            if not self.null: raise Unsupported('None where an object is expected')
            return [z3.IntVal(0)]
        if is_symobj(v): return [v._ref]
        if type(v) in self.classes or any(isinstance(v, c) for c in self.classes): return [promote(v)]
        raise Unsupported(f'object of class {type(v).__name__} where {self.name} is expected')
    def fresh(self, name='v'):
        r = fresh(name, I)
        assume(z3.And(r >= 0 if self.null else r > 0, r <= S.alloc))
        return self.wrap([r])
    def wf(self, ts):
        return [ts[0] >= 0 if self.null else ts[0] > 0, ts[0] <= S.alloc]

class List(T):
    sorts = (I,)
    def __init__(self, et): self.et, self.name = et, f'list<{et.name if et is not None else None}>'
    def wrap(self, ts): return VList.heap(ts[0], self.et)
    def leaves(self, v):
        if isinstance(v, VList): return [v.to_heap(self.et)]
        raise Unsupported(f'not a list: {v!r}')
    def fresh(self, name='v'):
        """a list of unknown length, not shared with anything"""
        n = fresh(name + '.len', I)
        assume(n >= 0)
        return VList.sym(n, self.et.fresh_fn(name + '.el'), self.et)
    def wf(self, ts): return [ts[0] > 0, ts[0] <= S.alloc]

class _SetInt(T):
    sorts, name = (z3.ArraySort(I, BS),), 'set<int>'
    def wrap(self, ts): return VSet(ts[0])
    def leaves(self, v):
        if isinstance(v, VSet): return [v.a]
        raise Unsupported('not a set of ints')

class Opaque(T):
    """a value the code only passes around"""
    def __init__(self, name='opaque'):
        self.sort = z3.DeclareSort('Opq_' + name)
        self.sorts, self.name = (self.sort,), name
    def wrap(self, ts): return SymOpaque(self, ts[0])
    def leaves(self, v):
        if isinstance(v, SymOpaque): return [v.t]
        raise Unsupported(f'opaque {self.name} expected, got {v!r}')

class ConstT(T):
    """one particular Python object (e.g. a dict that is only passed on)"""
    sorts = ()
    def __init__(self, o): self.o, self.name = o, f'const{id(o)}'
    def wrap(self, ts): return self.o
    def leaves(self, v):
        if v is not self.o: raise Unsupported('another object')
        return []

Int, Real, Bool, StrT, NoneT, Rect, SetInt = _Int(), _Real(), _Bool(), _Str(), _None(), _Rect(), _SetInt()


class SymOpaque:
    def __init__(self, ty, t): self.ty, self.t = ty, t
    def __eq__(self, o):
        if isinstance(o, SymOpaque): return mkB(self.t == o.t)
        return False
    def __hash__(self): raise Unsupported('hash of an opaque value')


def default(sort):
    if sort == I: return z3.IntVal(0)
    if sort == R_: return z3.RealVal(0)
    if sort == BS: return z3.BoolVal(False)
    if sort == z3.StringSort(): return z3.StringVal('')
    return z3.Const(f'default_{sort}', sort)


def typeof(v):
    """the type of a value, for havoc and merging"""
    if v is None: return NoneT
    if isinstance(v, (bool, B)): return Bool
    if isinstance(v, Num): return Int if v.is_int else Real
    if isinstance(v, int): return EnumT(type(v)) if isinstance(v, enum.Enum) else Int
    if isinstance(v, float): return Real
    if isinstance(v, (str, Str)): return StrT
    if isinstance(v, MRect): return Rect
    if isinstance(v, enum.Enum): return EnumT(type(v))
    if isinstance(v, SymEnum): return EnumT(v.cls)
    if isinstance(v, tuple): return Tup(*[typeof(x) for x in v])
    if isinstance(v, VSet): return SetInt
    if isinstance(v, SymOpaque): return v.ty
    if isinstance(v, VList):
        if v.mode == 'c':
            if not v.items: return List(None)
            t = typeof(v.items[0])
            for x in v.items[1:]: t = join(t, typeof(x))
            return List(t)
        return List(v.et)
    if is_symobj(v): return Obj(v._cls)
    if isinstance(v, dict): return ConstT(v)
    if type(v).__module__.startswith('pdf2docx'): return Obj(realclass(v))
    raise Unsupported(f'no type for {type(v).__name__}')


def join(a, b):
    if a is None: return b
    if b is None: return a
    if a.name == b.name: return a
    if a is NoneT or b is NoneT:
        t = b if a is NoneT else a
        if isinstance(t, Obj): return Obj(*t.classes, null=True)
        return t if isinstance(t, Opt) else Opt(t)
    if isinstance(a, Opt) or isinstance(b, Opt):
        x, y = (a.t if isinstance(a, Opt) else a), (b.t if isinstance(b, Opt) else b)
        return Opt(join(x, y))
    if {a.name, b.name} == {'int', 'real'}: return Real
    if {a.name, b.name} == {'int', 'bool'}: return Int
    if isinstance(a, Obj) and isinstance(b, Obj):
        cs = list(a.classes) + [c for c in b.classes if c not in a.classes]
        return Obj(*cs, null=a.null or b.null)
    if type(a) is type(b) and isinstance(a, Tup) and len(a.ts) == len(b.ts):
        return type(a)(*[join(x, y) for x, y in zip(a.ts, b.ts)])
    if isinstance(a, List) and isinstance(b, List): return List(join(a.et, b.et))
    raise Unsupported(f'no common type of {a.name} and {b.name}')


# ------------------------------------------------------------------ strings
class Str:
    __slots__ = ('t', 'of')
    def __init__(self, t, of=None): self.t, self.of = t, of     # of: the number whose decimal text this is
    def __repr__(self): return f'<str {self.t}>'
    def __str__(self): return '<symstr>'
    def __format__(self, s):
        if s: raise Unsupported('format specification of a symbolic string')
        from .core import token
        return token(self if self.of is None else self.of)
    def __deepcopy__(self, memo): return self
    def __bool__(self): return branch(z3.Length(self.t) > 0)
    def __hash__(self): raise Unsupported('hash of a symbolic str')
    def __eq__(self, o):
        b = strlift(o)
        return False if b is None else mkB(self.t == b)
    def __ne__(self, o): return not_(self.__eq__(o))
    def __add__(self, o):
        b = strlift(o)
        return NotImplemented if b is None else mkstr(z3.Concat(self.t, b))
    def __radd__(self, o):
        b = strlift(o)
        return NotImplemented if b is None else mkstr(z3.Concat(b, self.t))
    def vlen(self): return mk(z3.Length(self.t))
    def __getitem__(self, i):
        n = z3.Length(self.t)
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported('string slice step')
            lo, hi = slice_bounds(i, n)
            return mkstr(z3.SubString(self.t, lo, hi - lo))
        t = lift(i)
        if branch(t < 0): t = t + n
        if not branch(z3.And(t >= 0, t < n)): raise IndexError('string index out of range')
        return mkstr(z3.SubString(self.t, t, 1))
    def __contains__(self, o): return branch(z3.Contains(self.t, strlift(o)))
    def startswith(self, o): return mkB(z3.PrefixOf(strlift(o), self.t))
    def endswith(self, o): return mkB(z3.SuffixOf(strlift(o), self.t))
    def upper(self): return mkstr(strfun('upper')(self.t))
    def lower(self): return mkstr(strfun('lower')(self.t))
    def strip(self, *a):
        if a: raise Unsupported('strip with argument')
        return mkstr(strfun('strip')(self.t))
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'str.{n} on a symbolic string')


class Hex:
    """hexadecimal digits of n: at least one, or exactly w of them"""
    _pyvc_stub = True
    def __init__(self, n, w=None, prefix=False): self.n, self.w, self.prefix = n, w, prefix
    def __format__(self, s):
        if s: raise Unsupported('format specification of symbolic digits')
        from .core import token
        return token(self)
    __str__ = lambda self: self.__format__('')
    def __deepcopy__(self, memo): return self
    def __hash__(self): raise Unsupported('hash of symbolic digits')
    def __eq__(self, o): raise Unsupported('comparison of symbolic digits')
    def upper(self): return self if not self.prefix else self._no()
    lower = upper
    def _no(self): raise Unsupported('operation on symbolic hexadecimal digits')
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'str.{n} on symbolic digits')
    def __getitem__(self, k):
        if self.prefix:
            if isinstance(k, slice) and (k.start, k.stop, k.step) == (2, None, None): return Hex(self.n)
            self._no()
        if self.w is None: self._no()
        if isinstance(k, slice) and k.step in (None, 1):
            a, b, _ = k.indices(self.w)
        elif isinstance(k, int): a, b = range(self.w)[k], range(self.w)[k] + 1
        else: self._no()
        if b <= a: return ''
        return Hex((self.n // 16 ** (self.w - b)) % 16 ** (b - a), b - a)
    def zfill(self, w):
        if self.prefix or self.w is not None and self.w < w: self._no()
        if self.w is not None: return self
        if not isinstance(w, int): self._no()
        if not branch(z3.And(lift(self.n) >= 0, lift(self.n) < 16 ** w)): self._no()
        return Hex(self.n, w)
    rjust = lambda self, w, c=' ': self.zfill(w) if c == '0' else self._no()
    def vlen(self): return self.w if self.w is not None else self._no()


def strfun(name): return z3.Function('str.' + name, z3.StringSort(), z3.StringSort())

def strlift(x):
    if isinstance(x, Str): return x.t
    if isinstance(x, str): return z3.StringVal(x)
    return None

def mkstr(t):
    t = z3.simplify(t)
    if z3.is_string_value(t): return t.as_string()
    return Str(t)


# ------------------------------------------------------------------ enums
class SymEnum:
    def __init__(self, cls, t): self.cls, self.t = cls, t
    def __eq__(self, o):
        if isinstance(o, SymEnum): return mkB(self.t == o.t) if o.cls is self.cls else False
        if isinstance(o, self.cls): return mkB(self.t == list(self.cls).index(o))
        return False
    def __ne__(self, o): return not_(self.__eq__(o))
    def __hash__(self): raise Unsupported('hash of a symbolic enum')
    def __deepcopy__(self, memo): return self
    @property
    def value(self):
        ms = list(self.cls)
        if all(isinstance(m.value, int) for m in ms):
            t = z3.IntVal(ms[-1].value)
            for k, m in list(enumerate(ms))[:-1][::-1]: t = z3.If(self.t == k, z3.IntVal(m.value), t)
            return mk(z3.simplify(t))
        raise Unsupported('enum value')
    @property
    def name(self): raise Unsupported('enum name')
    def __bool__(self): return True

def mkenum(cls, t):
    t = z3.simplify(t)
    if z3.is_int_value(t): return list(cls)[t.as_long()]
    return SymEnum(cls, t)


# ------------------------------------------------------------------ objects
CLSOF = z3.Function('cls_of', I, I)
_clsid = {}
_dyn = {}
SCHEMA = {}           # class name -> {field: T}


def cls_is(r, c):
    return CLSOF(r) == _clsid.setdefault(c.__name__, len(_clsid) + 1)

def realclass(v):
    c = type(v)
    return getattr(c, '_pyvc_real', c)

def is_symobj(v): return getattr(type(v), '_pyvc_real', None) is not None


def field_type(cls, name):
    for c in cls.__mro__:
        f = SCHEMA.get(c.__name__)
        if f and name in f: return c.__name__, f[name]
    return None


def dyn_class(cls):
    if cls not in _dyn:
        def ga(self, name):
            if name == '_ref' or name.startswith('__'): raise AttributeError(name)
            ft = field_type(cls, name)
            if ft is None:
                raise Unsupported(f'field {cls.__name__}.{name} is not in the schema')
            return read_field(self._ref, *ft, name)
        def sa(self, name, v):
            set_attr(self, name, v)
        d = {'__getattr__': ga, '__setattr__': sa, '_pyvc_real': cls,
             '__class__': property(lambda self: cls),
             '__deepcopy__': lambda self, memo: _deepcopy(self),
             '__hash__': None, '__repr__': lambda self: f'<{cls.__name__}@{self._ref}>'}
        if '__eq__' not in cls.__dict__ and cls.__eq__ is object.__eq__:
            d['__eq__'] = lambda self, o: is_(self, o)
            d['__ne__'] = lambda self, o: not_(is_(self, o))
        _dyn[cls] = type('Sym_' + cls.__name__, (cls,), d)
    return _dyn[cls]


def _deepcopy(o): raise Unsupported('deepcopy of a symbolic object')


def symobj(cls, ref, tag=False):
    o = object.__new__(dyn_class(cls))
    object.__setattr__(o, '_ref', ref)
    object.__setattr__(o, '_cls', cls)
    return o


def read_field(ref, owner, ty, name):
    ts = [hread(f'{owner}.{name}.{j}', s, ref) for j, s in enumerate(ty.sorts)]
    wf = ty.wf(ts)
    if wf and not S.placeholders: assume(z3.And(*wf))
    return ty.wrap(ts)


def write_field(ref, owner, ty, name, v):
    for j, (s, t) in enumerate(zip(ty.sorts, ty.leaves(v))):
        hwrite(f'{owner}.{name}.{j}', s, ref, t)


def set_attr(o, name, v):
    """o.name = v, for transformed code"""
    if is_symobj(o):
        cls = o._cls
        p = getattr(cls, name, None)
        if isinstance(p, property):
            if p.fset is None: raise AttributeError(f"property '{name}' has no setter")
            p.fset(o, v); return
        ft = field_type(cls, name)
        if ft is None:
            if type(p).__name__ == 'lazyproperty': return
            raise Unsupported(f'field {cls.__name__}.{name} is not in the schema')
        write_field(o._ref, *ft, name, v)
        return
    if not isinstance(o, type):
        for tr in S.track: tr.attr_write(o, name, v)
    else:
        for tr in S.track: tr.attr_write(o, name, v)
    setattr(o, name, v)


def promote(o):
    """move a concrete object to the symbolic heap (keeps its identity)"""
    cls = type(o)
    fields = dict(o.__dict__)
    ref = allocate()
    o.__dict__.clear()
    o.__class__ = dyn_class(cls)
    object.__setattr__(o, '_ref', ref)
    object.__setattr__(o, '_cls', cls)
    assume(cls_is(ref, cls))
    for k, v in fields.items():
        ft = field_type(cls, k)
        if ft is None: raise Unsupported(f'field {cls.__name__}.{k} is not in the schema')
        saved, S.track = S.track, []
        try: write_field(ref, *ft, k, v)
        finally: S.track = saved
    return ref


def is_(a, b):
    """a is b"""
    if is_symobj(a) or is_symobj(b):
        if is_symobj(a) and is_symobj(b): return mkB(a._ref == b._ref)
        return False
    if isinstance(a, VList) and isinstance(b, VList) and a.mode == b.mode == 'h': return mkB(a.ref == b.ref)
    if isinstance(a, SymEnum) or isinstance(b, SymEnum): return a == b if isinstance(a, SymEnum) else b == a
    if isinstance(a, B) and isinstance(b, bool): return a == b
    if isinstance(b, B) and isinstance(a, bool): return b == a
    return a is b


# ------------------------------------------------------------------ rect model
class MPoint:
    """model of fitz.Point over symbolic reals"""
    __slots__ = ('_x', '_y')
    def __init__(self, *a):
        if not a: a = (0.0, 0.0)
        elif len(a) == 1: a = seq(a[0])
        if len(a) != 2: raise ValueError('Point: bad seq len')
        for x in a:
            if lift(x) is None: raise ValueError('Point: bad args')
        self._x, self._y = _f(a[0]), _f(a[1])
    x, y = property(lambda s: s._x), property(lambda s: s._y)
    @property
    def c(self): return (self._x, self._y)
    def __iter__(self): return iter(self.c)
    def __len__(self): return 2
    def __getitem__(self, i): return self.c[i]
    def __repr__(self): return f'Point{self.c}'
    def __bool__(self): return branch(z3.Or(*[real(lift(x)) != 0 for x in self.c]))
    def __eq__(self, o):
        if not hasattr(o, '__len__') and not isinstance(o, VList): return False
        o = seq(o)
        if len(o) != 2: return False
        return mkB(z3.And(*[real(lift(x)) == real(lift(y)) for x, y in zip(self.c, o)]))
    def __ne__(self, o): return not_(self.__eq__(o))
    __hash__ = None
    def __add__(self, p): return self._arith(p, lambda a, b: a + b)
    def __sub__(self, p): return self._arith(p, lambda a, b: a - b)
    def _arith(self, p, f):
        if lift(p) is not None: return MPoint(*[f(x, p) for x in self.c])
        return MPoint(*[f(x, y) for x, y in zip(self.c, seq(p))])
    def __mul__(self, m):
        if lift(m) is not None: return MPoint(*[x * m for x in self.c])
        a, b, c, d, e, f = [x for x in m]
        return MPoint(self.x * a + self.y * c + e, self.x * b + self.y * d + f)
    def __truediv__(self, m):
        if lift(m) is None: raise Unsupported('Point / matrix')
        return MPoint(*[x / m for x in self.c])
    def __neg__(self): return MPoint(*[-x for x in self.c])
    def __deepcopy__(self, memo): return self
    def __setattr__(self, n, v):
        if n in ('_x', '_y') and not hasattr(self, n): return object.__setattr__(self, n, v)
        raise Unsupported('in-place point update')


class MRect:
    """model of fitz.Rect over symbolic reals (value semantics; finite coordinates)"""
    __slots__ = ('_x0', '_y0', '_x1', '_y1', '_frozen')
    def __init__(self, *a):
        if len(a) == 0: c = (0.0,) * 4
        elif len(a) == 1:
            c = seq(a[0])
            if len(c) != 4: raise ValueError('Rect: bad seq len')
        elif len(a) == 4: c = a
        elif len(a) == 2: c = tuple(seq(a[0])) + tuple(seq(a[1]))
        else: raise Unsupported('Rect arguments')
        for x in c:
            if lift(x) is None: raise ValueError('Rect: bad args')
        self._x0, self._y0, self._x1, self._y1 = [_f(x) for x in c]
    x0 = property(lambda s: s._x0, lambda s, v: s._set('_x0', v))
    y0 = property(lambda s: s._y0, lambda s, v: s._set('_y0', v))
    x1 = property(lambda s: s._x1, lambda s, v: s._set('_x1', v))
    y1 = property(lambda s: s._y1, lambda s, v: s._set('_y1', v))
    def _set(self, k, v):
        for tr in S.track: tr.rect_write(self)
        setattr(self, k, _f(v))
    @property
    def c(self): return (self._x0, self._y0, self._x1, self._y1)
    def __iter__(self): return iter(self.c)
    def __len__(self): return 4
    def __getitem__(self, i):
        if isinstance(i, Num):
            i = choose_int(i, -4, 3)
        return self.c[i]
    def __setitem__(self, i, v): self._set(('_x0', '_y0', '_x1', '_y1')[i], v)
    def __repr__(self): return f'Rect{self.c}'
    def _t(self): return [real(lift(x)) for x in self.c]
    def __bool__(self): return branch(self.nonzero())
    def nonzero(self): return z3.Or(*[t != 0 for t in self._t()])
    @property
    def is_valid(self):
        a = self._t(); return mkB(z3.And(a[0] <= a[2], a[1] <= a[3]))
    @property
    def is_empty(self):
        a = self._t(); return mkB(z3.Or(a[0] >= a[2], a[1] >= a[3]))
    isEmpty = is_empty
    is_infinite = isInfinite = False
    @property
    def width(self):
        a = self._t(); return Num(zmax(a[2] - a[0], z3.RealVal(0)))
    @property
    def height(self):
        a = self._t(); return Num(zmax(a[3] - a[1], z3.RealVal(0)))
    def get_area(self, *u):
        if u: raise Unsupported('area unit')
        return self.width * self.height
    getArea = get_area
    def __abs__(self): return self.get_area()
    def __eq__(self, o):
        if not hasattr(o, '__len__') and not isinstance(o, VList): return False
        o = seq(o)
        if len(o) != 4: return False
        return mkB(z3.And(*[x == real(lift(y)) for x, y in zip(self._t(), o)]))
    def __ne__(self, o): return not_(self.__eq__(o))
    def __hash__(self): raise Unsupported('hash of a symbolic rect')
    def __add__(self, p): return self._arith(p, lambda a, b: a + b)
    def __sub__(self, p): return self._arith(p, lambda a, b: a - b)
    def _arith(self, p, f):
        if lift(p) is not None: return MRect(*[f(x, p) for x in self.c])
        p = seq(p)
        if len(p) != 4: raise ValueError('Rect: bad seq len')
        return MRect(*[f(x, y) for x, y in zip(self.c, p)])
    def __mul__(self, m):
        if lift(m) is not None: return MRect(*[x * m for x in self.c])
        a, b, c, d, e, f = [x for x in m]
        pts = [(x * a + y * c + e, x * b + y * d + f) for x, y in
               ((self.x0, self.y0), (self.x1, self.y0), (self.x0, self.y1), (self.x1, self.y1))]
        if lit(b, 0) and lit(c, 0) and lit(a, 1) and lit(d, 1) and lit(e, 0) and lit(f, 0): return MRect(self)
        xs, ys = [real(lift(p[0])) for p in pts], [real(lift(p[1])) for p in pts]
        mn = lambda l: Num(zmin(zmin(l[0], l[1]), zmin(l[2], l[3])))
        mx = lambda l: Num(zmax(zmax(l[0], l[1]), zmax(l[2], l[3])))
        return MRect(mn(xs), mn(ys), mx(xs), mx(ys))
    def _comb(self, o, f):
        return MRect(*[Num(z3.simplify(t)) for t in f(self._t(), [real(lift(x)) for x in seq(o)])])
    def __and__(self, o):
        def f(a, b):
            be, ae = z3.Or(b[0] >= b[2], b[1] >= b[3]), z3.Or(a[0] >= a[2], a[1] >= a[3])
            m = [zmax(a[0], b[0]), zmax(a[1], b[1]), zmin(a[2], b[2]), zmin(a[3], b[3])]
            return [z3.If(be, y, z3.If(ae, x, w)) for x, y, w in zip(a, b, m)]
        return self._comb(o, f)
    def __or__(self, o):
        def f(a, b):
            be, ae = z3.Or(b[0] >= b[2], b[1] >= b[3]), z3.Or(a[0] >= a[2], a[1] >= a[3])
            m = [zmin(a[0], b[0]), zmin(a[1], b[1]), zmax(a[2], b[2]), zmax(a[3], b[3])]
            return [z3.If(be, x, z3.If(ae, y, w)) for x, y, w in zip(a, b, m)]
        o = seq(o)
        if len(o) == 2: raise Unsupported('Rect | Point')
        return self._comb(o, f)
    def intersects(self, o):
        r = MRect(o)
        return not_(B(z3.Or(tobool(self.is_empty), tobool(r.is_empty), tobool((self & r).is_empty))))
    def contains(self, x): return self._has(x)
    def __contains__(self, x): return bool(self._has(x))
    def _has(self, x):
        if lift(x) is not None: raise Unsupported('number in Rect')
        x = seq(x); a = self._t(); b = [real(lift(v)) for v in x]
        if len(b) == 2:
            return mkB(z3.And(a[0] <= b[0], b[0] < a[2], a[1] <= b[1], b[1] < a[3]))
        return mkB(z3.And(a[0] <= b[0], b[0] <= b[2], b[2] <= a[2], a[1] <= b[1], b[1] <= b[3], b[3] <= a[3]))
    def include_rect(self, o):
        r = self | o
        for tr in S.track: tr.rect_write(self)
        self._x0, self._y0, self._x1, self._y1 = r.c
        return self
    def normalize(self):
        for tr in S.track: tr.rect_write(self)
        a = self._t()
        self._x0, self._y0, self._x1, self._y1 = Num(zmin(a[0], a[2])), Num(zmin(a[1], a[3])), Num(zmax(a[0], a[2])), Num(zmax(a[1], a[3]))
        return self
    @property
    def top_left(self): return (self.x0, self.y0)
    @property
    def bottom_right(self): return (self.x1, self.y1)
    tl, br = top_left, bottom_right
    def __deepcopy__(self, memo): return MRect(self)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported(f'Rect.{n}')


def lit(x, v): return isinstance(x, (int, float)) and x == v
def _f(x): return float(x) if isinstance(x, int) and not isinstance(x, bool) else (Num(real(x.t)) if isinstance(x, Num) else x)
def zmax(a, b): return z3.If(a >= b, a, b)
def zmin(a, b): return z3.If(a <= b, a, b)


def seq(x):
    """a python sequence of known length"""
    if isinstance(x, VList):
        if x.mode == 'c': return tuple(x.items)
        n = x.nterm(); n = z3.simplify(n)
        if z3.is_int_value(n): return tuple(x.raw(z3.IntVal(k)) for k in range(n.as_long()))
        raise Unsupported('sequence of unknown length')
    if isinstance(x, MRect): return x.c
    return tuple(x)


def choose_int(n, lo, hi):
    """fork over the values of a symbolic int known to be small"""
    c = n.const()
    if c is not None: return c
    for k in range(lo, hi + 1):
        if branch(n.t == k): return k
    raise Unsupported('symbolic index out of the expected range')


# ------------------------------------------------------------------ sets of ints
class VSet:
    """set of ints as a characteristic function; mutable"""
    def __init__(self, a=None): self.a = a if a is not None else z3.K(I, z3.BoolVal(False))
    def _w(self):
        for tr in S.track: tr.obj_write(self)
    def add(self, x): self._w(); self.a = z3.Store(self.a, lift(x), z3.BoolVal(True))
    def update(self, o):
        self._w()
        if isinstance(o, VSet):
            a = fresh('union', self.a.sort())
            k = z3.Int('k!union')
            assume(z3.ForAll([k], z3.Select(a, k) == z3.Or(z3.Select(self.a, k), z3.Select(o.a, k)), **(patkw(z3.Select(a, k), z3.Select(self.a, k), z3.Select(o.a, k)) or patkw(z3.Select(a, k)))))
            self.a = a
        else:
            for x in (conc(tolist(o)) if conc(tolist(o)) is not None else _unsup('update with a symbolic list')): self.add(x)
    def enum(self):
        """the members in some order, each once"""
        c = S.counts.get('enum', 0); S.counts['enum'] = c + 1
        if S.placeholders: raise Unsupported('iteration over a set inside a summarised expression')
        n = fresh('card', I)
        el, pos = z3.Function(f'setel!{c}', I, I), z3.Function(f'setpos!{c}', I, I)
        k = z3.Int('k!enum')
        assume(n >= 0)
        assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Select(self.a, el(k)), pos(el(k)) == k)), patterns=[el(k)]))
        assume(z3.ForAll([k], z3.Implies(z3.Select(self.a, k), z3.And(pos(k) >= 0, pos(k) < n, el(pos(k)) == k)), **patkw(z3.Select(self.a, k))))
        return VList.sym(n, lambda i: [el(i)], Int)
    def vlen(self):
        l = self.enum()
        f = l.leaf_fn()
        a, b = f(z3.IntVal(0))[0], f(z3.IntVal(1))[0]
        assume(z3.And(z3.Implies(l.n >= 1, z3.Select(self.a, a)), z3.Implies(l.n >= 2, z3.And(z3.Select(self.a, b), a != b))))
        k = z3.Int('k!card')
        assume(z3.Implies(l.n == 1, z3.ForAll([k], z3.Implies(z3.Select(self.a, k), k == a), **patkw(z3.Select(self.a, k)))))
        return mk(l.n)
    def discard(self, x): self._w(); self.a = z3.Store(self.a, lift(x), z3.BoolVal(False))
    def remove(self, x):
        if not branch(z3.Select(self.a, lift(x))): raise KeyError
        self.discard(x)
    def has(self, x): return mkB(z3.Select(self.a, lift(x)))
    def __contains__(self, x): return bool(self.has(x))
    def __bool__(self): raise Unsupported('truth of a symbolic set')
    def __hash__(self): raise Unsupported('hash of a set')
    def __eq__(self, o): return mkB(self.a == o.a) if isinstance(o, VSet) else False


def _unsup(m): raise Unsupported(m)


class HSet(VSet):
    """set of ints living in the heap (shared by reference)"""
    def __init__(self, ref): self.ref = ref
    def _w(self): pass
    a = property(lambda s: hread('$set', z3.ArraySort(I, BS), s.ref), lambda s, v: hwrite('$set', z3.ArraySort(I, BS), s.ref, v))


class _SetRef(T):
    sorts, name = (I,), '&set<int>'
    def wrap(self, ts): return HSet(ts[0])
    def leaves(self, v):
        if isinstance(v, HSet): return [v.ref]
        raise Unsupported('not a heap set')
    def wf(self, ts): return [ts[0] > 0, ts[0] <= S.alloc]
SetRef = _SetRef()


class PairSet(VSet):
    """ghost relation over ints"""
    _pyvc_stub = True
    def __init__(self, a=None): self.a = a if a is not None else z3.K(I, z3.K(I, z3.BoolVal(False)))
    def add(self, i, j): self._w(); self.a = z3.Store(self.a, lift(i), z3.Store(z3.Select(self.a, lift(i)), lift(j), z3.BoolVal(True)))
    def has(self, i, j): return mkB(z3.Select(z3.Select(self.a, lift(i)), lift(j)))
    def set(self, a): self._w(); self.a = a


# ------------------------------------------------------------------ lists
def slice_bounds(s, n):
    def norm(v, d):
        if v is None: return d
        t = lift(v)
        neg = implied(t < 0)
        a = lambda: ite(t + n < 0, z3.IntVal(0), t + n)
        b = lambda: ite(t > n, n, t)
        return z3.simplify(a() if neg is True else b() if neg is False else z3.If(t < 0, a(), b()))
    lo, hi = norm(s.start, z3.IntVal(0)), norm(s.stop, n)
    hi = z3.simplify(ite(hi < lo, lo, hi))
    return lo, hi


def merge(cases, what='values'):
    """[(cond, value)] -> one value, conds exhaustive"""
    vals = [v for _, v in cases]
    if len(vals) == 1: return vals[0]
    if all(v is vals[0] for v in vals) and (vals[0] is None or isinstance(vals[0], (bool, str, enum.Enum))): return vals[0]
    t = typeof(vals[0])
    for v in vals[1:]: t = join(t, typeof(v))
    if isinstance(t, (Opt,)): raise Unsupported('merge of an optional')
    ls = [t.leaves(v) for v in vals]
    out = list(ls[-1])
    for (c, _), l in list(zip(cases, ls))[:-1][::-1]:
        out = [z3.If(c, a, b) for a, b in zip(l, out)]
    return t.wrap([z3.simplify(x) for x in out])


def merged_leaves(cases, t=None):
    vals = [v for _, v in cases]
    if t is None:
        t = typeof(vals[0])
        for v in vals[1:]: t = join(t, typeof(v))
    ls = [t.leaves(v) for v in vals]
    out = list(ls[-1])
    for (c, _), l in list(zip(cases, ls))[:-1][::-1]:
        out = [z3.If(c, a, b) for a, b in zip(l, out)]
    return t, [z3.simplify(x) for x in out]


def subst_fn(k, terms):
    """terms over placeholder k -> function of an index"""
    return lambda i: [z3.substitute(t, (k, i)) for t in terms]


class VList:
    """python list: concrete ('c'), symbolic value ('s'), or heap reference ('h')"""
    __slots__ = ('mode', 'items', 'n', 'leaf', 'et', 'ref', 'tuple', 'maxlen', 'facts', 'shift')
    def __init__(self, items=()):
        self.mode, self.items, self.et, self.tuple, self.facts = 'c', list(items), None, False, None
    @classmethod
    def sym(cls, n, leaf, et):
        v = cls(); v.mode, v.n, v.leaf, v.et = 's', z3.simplify(n), leaf, et
        return v
    @classmethod
    def heap(cls, ref, et):
        v = cls(); v.mode, v.ref, v.et = 'h', ref, et
        if not S.placeholders: assume(v.nterm() >= 0)
        return v
    # -- access
    def nterm(self):
        if self.mode == 'c': return z3.IntVal(len(self.items))
        if self.mode == 's': return self.n
        return hread('$len', I, self.ref)
    def _arrs(self): return [hread(f'$el:{self.et.name}.{j}', z3.ArraySort(I, s), self.ref) for j, s in enumerate(self.et.sorts)]
    def leaf_fn(self, et=None):
        """snapshot: index term -> leaf terms"""
        if self.mode == 's': return self.leaf
        if self.mode == 'h':
            arrs = self._arrs()
            return lambda i: [z3.Select(a, i) for a in arrs]
        ls = [et.leaves(x) for x in self.items]
        def f(i):
            if z3.is_int_value(i) and 0 <= i.as_long() < len(ls): return ls[i.as_long()]
            out = list(ls[-1]) if ls else [default(s) for s in et.sorts]
            for k in range(len(ls) - 2, -1, -1): out = [z3.If(i == k, a, b) for a, b in zip(ls[k], out)]
            return out
        return f
    def raw(self, i):
        """element at index term i (no bounds check)"""
        if self.mode == 'c':
            i = z3.simplify(i)
            if z3.is_int_value(i): return self.items[i.as_long()]
            if not self.items:
                if self.et is not None: return self.et.fresh('unspecified')
                if S.placeholders: raise Unsupported('index into an empty list of unknown type')
                raise PathEnd('index into an empty list')
            return merge([(i == k, v) for k, v in enumerate(self.items)])
        ts = [z3.simplify(t) for t in self.leaf_fn()(i)]
        wf = self.et.wf(ts)
        if wf and not S.placeholders: assume(z3.And(*wf))
        return self.et.wrap(ts)
    def etype(self):
        if self.mode == 'c': return typeof(self).et
        return self.et
    def index_term(self, i):
        t = lift(i)
        if t is None or t.sort() != I: raise TypeError('list indices must be integers')
        n = self.nterm()
        t = z3.simplify(t)
        if z3.is_int_value(t):
            if t.as_long() < 0: t = z3.simplify(n + t)
        elif branch(t < 0): t = t + n
        if not branch(z3.And(t >= 0, t < n)): raise IndexError('list index out of range')
        return t
    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): 
                if i.step == -1 and i.start is None and i.stop is None: return vreversed(self)
                raise Unsupported('slice step')
            if self.mode == 'c' and not isinstance(i.start, Num) and not isinstance(i.stop, Num): return VList(self.items[i])
            lo, hi = slice_bounds(i, self.nterm())
            if self.mode == 'c':
                if not self.items: return VList()
                et = typeof(self).et; f = self.leaf_fn(et)
            else: et, f = self.et, self.leaf_fn()
            r = VList.sym(hi - lo, lambda j: f(z3.simplify(lo + j)), et)
            r.shift = (lo, r.leaf)
            return r
        if self.mode == 'c' and isinstance(i, int): return self.items[i]
        return self.raw(self.index_term(i))
    def vlen(self):
        return mk(z3.simplify(self.nterm()))
    def __len__(self):
        n = z3.simplify(self.nterm())
        if z3.is_int_value(n): return n.as_long()
        raise Unsupported('native len of a symbolic list')
    def __bool__(self):
        if self.mode == 'c': return bool(self.items)
        return branch(self.nterm() > 0)
    def __iter__(self):
        if self.mode == 'c': return iter(self.items)
        n = z3.simplify(self.nterm())
        if z3.is_int_value(n): return iter([self.raw(z3.IntVal(k)) for k in range(n.as_long())])
        raise Unsupported('native iteration over a symbolic list')
    def __hash__(self): raise TypeError('unhashable list')
    def __repr__(self): return f'VList{self.items}' if self.mode == 'c' else f'VList[{self.mode}:{self.et}]'
    def __eq__(self, o):
        if not isinstance(o, VList):
            return False
        if self.mode == 'c' and o.mode == 'c':
            if len(self.items) != len(o.items): return False
            r = z3.BoolVal(True)
            for a, b in zip(self.items, o.items): r = z3.And(r, tobool(veq(a, b)))
            return mkB(r)
        raise Unsupported('comparison of symbolic lists')
    def __ne__(self, o): return not_(self.__eq__(o))
    def has(self, x):
        if self.mode == 'c':
            r = z3.BoolVal(False)
            for a in self.items: r = z3.Or(r, tobool(veq(a, x)))
            return mkB(r)
        k = z3.Int(f'has!{len(S.placeholders)}')
        return mkB(z3.Exists([k], z3.And(k >= 0, k < self.nterm(), veq_leaves(self.et, self.leaf_fn()(k), x))))
    def __contains__(self, x): return bool(self.has(x))
    # -- mutation
    def _w(self, kind='w'):
        self.facts = None
        for tr in S.track: tr.list_write(self)
    def set_content(self, n, leaf, et):
        """replace the content"""
        if self.mode == 'h':
            hwrite('$len', I, self.ref, z3.simplify(n))
            for j, s in enumerate(et.sorts):
                a = as_array(leaf, j, s)
                hwrite(f'$el:{et.name}.{j}', z3.ArraySort(I, s), self.ref, a)
        else: self.mode, self.n, self.leaf, self.et = 's', z3.simplify(n), leaf, et
    def append(self, v):
        self._w()
        if self.mode == 'c': self.items.append(v); return
        n, ls = self.nterm(), self.et.leaves(v)
        if self.mode == 'h':
            arrs = self._arrs()
            hwrite('$len', I, self.ref, z3.simplify(n + 1))
            for j, (s, a, l) in enumerate(zip(self.et.sorts, arrs, ls)):
                hwrite(f'$el:{self.et.name}.{j}', z3.ArraySort(I, s), self.ref, z3.Store(a, n, l))
            return
        old = self.leaf
        self.n = z3.simplify(n + 1)
        self.leaf = lambda i: [z3.If(i == n, a, b) for a, b in zip(ls, old(i))]
    def extend(self, it):
        o = tolist(it)
        if o.mode == 'c':
            for x in list(o.items): self.append(x)
            return
        self._w()
        r = self + o
        if self.mode == 'h': self.set_content(r.nterm(), r.leaf_fn(), r.et)
        elif r.mode == 'c': self.items = r.items
        else: self.mode, self.n, self.leaf, self.et = 's', r.n, r.leaf, r.et
    def __add__(self, o):
        o = tolist(o)
        if self.mode == 'c' and o.mode == 'c': return VList(self.items + o.items)
        if self.mode == 'c' and not self.items: return o.copy()
        if o.mode == 'c' and not o.items: return self.copy()
        et = join(self.etype(), o.etype())
        f, g, n = self.leaf_fn(et), o.leaf_fn(et), self.nterm()
        return VList.sym(n + o.nterm(), lambda i: [z3.If(i < n, a, b) for a, b in zip(f(i), g(i - n))], et)
    def __radd__(self, o): return tolist(o) + self if isinstance(o, list) else NotImplemented
    def __iadd__(self, o): self.extend(o); return self
    def __mul__(self, k):
        if self.mode == 'c' and isinstance(k, int): return VList(self.items * k)
        if self.mode == 'c' and len(self.items) == 1 and isinstance(k, Num):
            v = self.items[0]; t = typeof(v); ls = t.leaves(v)
            return VList.sym(zmax(k.t, z3.IntVal(0)), lambda i: ls, t)
        raise Unsupported('list repetition')
    __rmul__ = __mul__
    def copy(self):
        if self.mode == 'c': return VList(self.items)
        r = VList.sym(self.nterm(), self.leaf_fn(), self.et)
        r.facts = self.facts
        return r
    def __deepcopy__(self, memo):
        import copy
        if self.mode == 'c': return VList([copy.deepcopy(x, memo) for x in self.items])
        raise Unsupported('deepcopy of a symbolic list')
    def __setitem__(self, i, v):
        self._w()
        if isinstance(i, slice): raise Unsupported('slice assignment')
        if self.mode == 'c':
            if isinstance(i, int): self.items[i] = v; return
            t = self.index_term(i)
            self.items = [merge([(t == k, v), (t != k, x)]) for k, x in enumerate(self.items)]
            return
        t, ls = self.index_term(i), self.et.leaves(v)
        old = self.leaf_fn()
        new = lambda j: [z3.If(j == t, a, b) for a, b in zip(ls, old(j))]
        if self.mode == 'h':
            for j, (s, a, l) in enumerate(zip(self.et.sorts, self._arrs(), ls)):
                hwrite(f'$el:{self.et.name}.{j}', z3.ArraySort(I, s), self.ref, z3.Store(a, t, l))
        else: self.leaf = new
    def pop(self, i=-1):
        self._w()
        if self.mode == 'c' and isinstance(i, int): return self.items.pop(i)
        t = self.index_term(i)
        v = self.raw(t)
        f, n, et = self.leaf_fn(self.etype()), self.nterm(), self.etype()
        self.set_content(n - 1, lambda j: [z3.If(j < t, a, b) for a, b in zip(f(j), f(j + 1))], et)
        return v
    def popleft(self): return self.pop(0)
    def insert(self, i, v):
        self._w()
        if self.mode == 'c' and isinstance(i, int): self.items.insert(i, v); return
        n = self.nterm()
        t = lift(i)
        t = z3.simplify(z3.If(t < 0, z3.If(t + n < 0, z3.IntVal(0), t + n), z3.If(t > n, n, t)))
        et = self.etype()
        f, ls = self.leaf_fn(et), et.leaves(v)
        self.set_content(n + 1, lambda j: [z3.If(j < t, a, z3.If(j == t, b, c)) for a, b, c in zip(f(j), ls, f(j - 1))], et)
    def clear(self):
        self._w()
        if self.mode == 'h': hwrite('$len', I, self.ref, z3.IntVal(0))
        else: self.mode, self.items = 'c', []
    def reverse(self):
        r = vreversed(self); self._w()
        if self.mode == 'c': self.items = r.items
        else: self.set_content(r.nterm(), r.leaf_fn(), r.et)
    def sort(self, key=None, reverse=False):
        r = vsorted(self, key, reverse); self._w()
        if self.mode == 'c': self.items = r.items
        else: self.set_content(r.nterm(), r.leaf_fn(), r.et)
        self.facts = r.facts
    def index(self, x):
        if self.mode == 'c':
            for k, a in enumerate(self.items):
                if veq(a, x): return k
            raise ValueError('not in list')
        raise Unsupported('list.index on a symbolic list')
    def remove(self, x):
        if self.mode == 'c':
            self._w(); del self.items[self.index(x)]; return
        raise Unsupported('list.remove on a symbolic list')
    def count(self, x):
        if self.mode == 'c': return sum([1 if veq(a, x) else 0 for a in self.items])
        n, c = self.nterm(), fresh('count', I)      # 0, 1, or more
        i, j = fresh('i', I), fresh('j', I)
        S.placeholders += [i, j]
        try: a, b = tobool(veq(self.raw(i), x)), tobool(veq(self.raw(j), x))
        finally: del S.placeholders[-2:]
        one, two = z3.Exists([i], z3.And(i >= 0, i < n, a)), z3.Exists([i, j], z3.And(i >= 0, i < j, j < n, a, b))
        assume(z3.And(c >= 0, c <= n, (c >= 1) == one, (c >= 2) == two))
        return Num(c)
    # -- promotion
    def to_heap(self, et):
        if self.mode == 'h':
            if et is not None and et.name != self.et.name: raise Unsupported(f'list of {self.et} where list of {et} is expected')
            return self.ref
        if et is None: raise Unsupported('element type of an empty list is unknown')
        n, f = self.nterm(), self.leaf_fn(et)
        ref = allocate()
        saved, S.track = S.track, []
        try:
            hwrite('$len', I, ref, z3.simplify(n))
            for j, s in enumerate(et.sorts):
                hwrite(f'$el:{et.name}.{j}', z3.ArraySort(I, s), ref, as_array(f, j, s, n))
        finally: S.track = saved
        self.mode, self.ref, self.et = 'h', ref, et
        return ref


def as_array(leaf, j, sort, n=None):
    a = fresh('arr', z3.ArraySort(I, sort))
    if n is not None:
        n = z3.simplify(n)
        if z3.is_int_value(n) and n.as_long() <= 8:
            for k in range(n.as_long()): a = z3.Store(a, k, leaf(z3.IntVal(k))[j])
            return a
    k = z3.Int('k!arr')
    assume(z3.ForAll([k], z3.Select(a, k) == leaf(k)[j], patterns=[z3.Select(a, k)]))
    return a


def veq(a, b):
    """a == b as a bool or SymBool"""
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return False
        r = z3.BoolVal(True)
        for x, y in zip(a, b): r = z3.And(r, tobool(veq(x, y)))
        return mkB(r)
    if isinstance(a, VList) and a.tuple and isinstance(b, tuple): b = VList(b)
    r = a == b
    if r is NotImplemented: return False
    return r if isinstance(r, (bool, B)) else bool(r)


def veq_leaves(et, ts, x):
    if isinstance(et, Obj) and not is_symobj(x) and x is not None: return z3.BoolVal(False)
    try: ls = et.leaves(x)
    except Unsupported: return z3.BoolVal(False)
    return z3.And(*[a == b for a, b in zip(ts, ls)])


# ------------------------------------------------------------------ iteration and summaries
def tolist(x):
    """any iterable -> VList (fresh or the same VList)"""
    if isinstance(x, VList): return x
    if isinstance(x, VIter): return x.rest()
    if isinstance(x, (list, tuple, dict)) or isinstance(x, (range, str, set, frozenset)): return VList(x)
    if isinstance(x, VRange): return x.vlist()
    if isinstance(x, MRect): return VList(x.c)
    if isinstance(x, VSet): return x.enum()
    if type(x).__name__ == 'VUniq': return x.list.copy()
    it = getattr(type(x), '__iter__', None)
    if it is not None:
        r = it(x)
        if isinstance(r, (VList, VIter, VRange)): return tolist(r)
        return VList(list(r))
    if hasattr(type(x), '__getitem__') and hasattr(type(x), '__len__'):
        r = getattr(x, '_instances', None)
        if isinstance(r, VList): return r
        return VList([x[i] for i in range(len(x))])
    raise TypeError(f'{type(x).__name__} is not iterable')


class VIter:
    """an iterator over a VList"""
    def __init__(self, l): self.l, self.pos = l, 0
    def rest(self):
        if self.pos == 0: return self.l
        return self.l[self.pos:]
    def __iter__(self): return self
    def __next__(self):
        if self.l.mode == 'c':
            if self.pos >= len(self.l.items): raise StopIteration
            v = self.l.items[self.pos]; self.pos += 1; return v
        if branch(z3.IntVal(self.pos) < self.l.nterm()):
            v = self.l.raw(z3.IntVal(self.pos)); self.pos += 1; return v
        raise StopIteration


class VRange:
    def __init__(self, *a):
        if len(a) == 1: a = (0, a[0])
        if len(a) == 3 and a[2] not in (1, -1): raise Unsupported('range step')
        self.lo, self.hi = lift(a[0]), lift(a[1])
        if self.lo is None or self.hi is None or self.lo.sort() != I or self.hi.sort() != I: raise TypeError('range() of a non-int')
        self.step = a[2] if len(a) == 3 else 1
    def nterm(self):
        d = (self.hi - self.lo) * self.step
        return z3.simplify(z3.If(d > 0, d, z3.IntVal(0)))
    def vlist(self):
        lo, st = self.lo, self.step
        return VList.sym(self.nterm(), lambda i: [z3.simplify(lo + i * st)], Int)
    def vlen(self): return mk(self.nterm())
    def __len__(self): return len(self.vlist())
    def __iter__(self): return iter(self.vlist())
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.vlist()[i]
        return self.vlist()[i]
    def __bool__(self): return branch(self.nterm() > 0)
    def has(self, x):
        t = lift(x)
        return mkB(z3.And(t >= self.lo, t < self.hi)) if self.step == 1 else mkB(z3.And(t <= self.lo, t > self.hi))
    def __contains__(self, x): return bool(self.has(x))


def conc(l):
    """list of known length as python list, else None"""
    if l.mode == 'c': return l.items
    n = z3.simplify(l.nterm())
    if z3.is_int_value(n) and n.as_long() <= 64: return [l.raw(z3.IntVal(k)) for k in range(n.as_long())]
    return None


_phc = [0]
def placeholder():
    return z3.Int(f'k@{len(S.placeholders)}')


def summarise(l, fn):
    """fn applied to an arbitrary element: (k, cases) with cases [(cond, value)]; exceptions fork here."""
    k = placeholder()
    n = l.nterm()
    rng = [k >= 0, k < n]
    def thunk():
        return fn(l.raw(k))
    res = explore_sub(thunk, rng, k)
    exc = [(c, v) for c, kind, v in res if kind == 'exc']
    for c, v in exc:
        if branch(z3.Exists([k], z3.And(*rng, c))): raise v
    if not res: return k, None
    return k, [(c, v) for c, kind, v in res if kind == 'ret']


def cond_term(cases):
    """cases of a truth value -> z3 Bool over the placeholder"""
    r = z3.BoolVal(False)
    for c, v in cases: r = z3.Or(r, z3.And(c, truth(v)))
    return z3.simplify(r)


def truth(v):
    if isinstance(v, B): return v.t
    if isinstance(v, Num): return v.t != 0
    if isinstance(v, MRect): return v.nonzero()
    if isinstance(v, VList): return v.nterm() > 0
    if isinstance(v, Str): return z3.Length(v.t) > 0
    if is_symobj(v) and not hasattr(type(v), '__bool__') and not hasattr(type(v), '__len__'): return z3.BoolVal(True)
    if is_symobj(v) or type(v).__module__.startswith('pdf2docx'):       # may be symbolic
        m = getattr(type(v), '__bool__', None) or getattr(type(v), '__len__', None)
        if m: return truth(m(v))
    return z3.BoolVal(bool(v))


def truth_call(fn):
    """wrap fn so that its result is evaluated for truth inside the summary"""
    def f(x):
        v = fn(x)
        if isinstance(v, (B, bool)): return v
        if isinstance(v, (Num, MRect, VList, Str)): return mkB(truth(v))
        return bool(v)
    return f


def vmap(fn, l):
    items = conc(l)
    if items is not None: return VList([fn(x) for x in items])
    k, cases = summarise(l, fn)
    if cases is None: return VList()
    et, ts = merged_leaves(cases)
    f = subst_fn(k, ts)
    return VList.sym(l.nterm(), f, et)


def vfilter(fn, l):
    items = conc(l)
    if fn is None: fn = lambda x: x
    if items is not None: return VList([x for x in items if fn(x)])
    k, cases = summarise(l, truth_call(fn))
    if cases is None: return VList()
    c = cond_term(cases)
    n, src, et = l.nterm(), l.leaf_fn(), l.et
    if z3.is_true(c): return VList.sym(n, src, et)
    idx, pos, m, facts = select_map(c, k, n)
    r = VList.sym(m, lambda i: src(idx(i)), et)
    r.facts = facts
    return r


def select_map(c, k, n):
    """monotone enumeration of {k in [0,n) | c(k)}: (idx, pos, m)"""
    if S.placeholders: raise Unsupported('nested filter summary')
    q = S.counts.get('flt', 0); S.counts['flt'] = q + 1
    idx, pos = z3.Function(f'flt!{q}', I, I), z3.Function(f'fltpos!{q}', I, I)
    m = fresh('fltlen', I)
    C = lambda t: z3.substitute(c, (k, t))
    i, j = z3.Ints('i!f j!f')
    assume(z3.And(m >= 0, m <= n))
    assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < m), z3.And(idx(i) >= 0, idx(i) < n, idx(i) >= i, C(idx(i)), pos(idx(i)) == i)), patterns=[idx(i)]))
    assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < m), idx(i) < idx(j)), patterns=[z3.MultiPattern(idx(i), idx(j))]))
    assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, C(i)), z3.And(pos(i) >= 0, pos(i) < m, idx(pos(i)) == i)), patterns=[pos(i)]))
    S.ghost[f'flt{q}'] = (idx, pos, m, C)
    return idx, pos, m, ('filter', idx, pos, C, n)


def vall(l, fn=None):
    items = conc(l)
    fn = fn or (lambda x: x)
    if items is not None:
        for x in items:
            if not fn(x): return False
        return True
    k, cases = summarise(l, truth_call(fn))
    if cases is None: return True
    return mkB(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < l.nterm()), cond_term(cases))))


def vany(l, fn=None):
    items = conc(l)
    fn = fn or (lambda x: x)
    if items is not None:
        for x in items:
            if fn(x): return True
        return False
    k, cases = summarise(l, truth_call(fn))
    if cases is None: return False
    return mkB(z3.Exists([k], z3.And(k >= 0, k < l.nterm(), cond_term(cases))))


def vsum(l, start=0):
    items = conc(l)
    if items is not None:
        r = start
        for x in items: r = r + x
        return r
    et = l.et
    if et.name not in ('int', 'real', 'bool'): raise Unsupported('sum of non-numbers')
    so = I if et.name in ('int', 'bool') and lift(start).sort() == I else R_
    q = S.counts.get('sum', 0); S.counts['sum'] = q + 1
    f = z3.Function(f'sum!{q}', I, so)
    k = z3.Int('k!sum')
    src = l.leaf_fn()
    el = lambda i: (real(lift(et.wrap([src(i)[0]]))) if so == R_ else lift(et.wrap([src(i)[0]])))
    st = lift(start); st = real(st) if so == R_ else st
    assume(f(0) == st)
    assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < l.nterm()), f(k + 1) == f(k) + el(k)), patterns=[f(k + 1)]))
    return mk(f(l.nterm()))


def keycmp(et, a, b, strict):
    """lexicographic comparison of key leaves"""
    if len(a) == 1:
        if a[0].sort() == BS: 
            x, y = z3.If(a[0], 1, 0), z3.If(b[0], 1, 0)
        else: x, y = a[0], b[0]
        return x < y if strict else x <= y
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], keycmp(et, a[1:], b[1:], strict)))


def vsorted(x, key=None, reverse=False):
    l = tolist(x)
    items = conc(l)
    if items is not None: return VList(insertion_sort(items, key, reverse))
    if reverse: raise Unsupported('reverse sort of a symbolic list')
    k, cases = summarise(l, key or (lambda v: v))
    kt, kl = merged_leaves(cases)
    K = subst_fn(k, kl)
    q = S.counts.get('perm', 0); S.counts['perm'] = q + 1
    p, inv = z3.Function(f'perm!{q}', I, I), z3.Function(f'perminv!{q}', I, I)
    n, src, et = l.nterm(), l.leaf_fn(), l.et
    i, j = z3.Ints('i!s j!s')
    assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(p(i) >= 0, p(i) < n, inv(p(i)) == i)), patterns=[p(i)]))
    assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(inv(i) >= 0, inv(i) < n, p(inv(i)) == i)), patterns=[inv(i)]))
    assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n),
           z3.And(keycmp(kt, K(p(i)), K(p(j)), False), z3.Implies(keycmp(kt, K(p(j)), K(p(i)), False), p(i) < p(j)))),
           patterns=[z3.MultiPattern(p(i), p(j))]))
    r = VList.sym(n, lambda t: src(p(t)), et)
    r.facts = ('sort', p, inv, n)
    return r


def insertion_sort(items, key, reverse):
    """stable, comparisons fork"""
    key = key or (lambda v: v)
    ks = [key(x) for x in items]
    def lt(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if veq(x, y): continue
                return bool(x < y)
            return len(a) < len(b)
        return bool(a < b)
    out = []
    for x, k in zip(items, ks):
        p = len(out)
        while p > 0 and (lt(out[p - 1][0], k) if reverse else lt(k, out[p - 1][0])): p -= 1
        out.insert(p, (k, x))
    return [x for _, x in out]


def vreversed(x):
    l = tolist(x)
    if l.mode == 'c': return VList(l.items[::-1])
    n, f = l.nterm(), l.leaf_fn()
    return VList.sym(n, lambda i: f(z3.simplify(n - 1 - i)), l.et)


def vminmax(args, key, mx, dflt=None, has_default=False):
    if len(args) == 1: l = tolist(args[0])
    else: l = VList(args)
    items = conc(l)
    if items is not None:
        if not items:
            if has_default: return dflt
            raise ValueError('min()/max() arg is an empty sequence')
        if key is None and all(lift(x) is not None for x in items):
            if all(isinstance(x, (int, float)) for x in items): return max(items) if mx else min(items)
            r = lift(items[0])
            for x in items[1:]:
                a, b = unify(r, lift(x))
                r = z3.If(b > a, b, a) if mx else z3.If(b < a, b, a)
            return mk(z3.simplify(r))
        key = key or (lambda v: v)
        best, bk = items[0], key(items[0])
        for x in items[1:]:
            kx = key(x)
            c = (kx > bk) if mx else (kx < bk)
            if not isinstance(c, bool) and all(type(v) is tuple and len(v) == len(x) and all(lift(u) is not None for u in v) for v in (x, best)) and lift(kx) is not None and lift(bk) is not None:
                f = lambda a, b: mk(z3.simplify(z3.If(tobool(c), *unify(lift(a), lift(b)))))      # one of two tuples of numbers
                best, bk = tuple(f(a, b) for a, b in zip(x, best)), f(kx, bk)
            elif c: best, bk = x, kx
        return best
    if not branch(l.nterm() > 0):
        if has_default: return dflt
        raise ValueError('min()/max() arg is an empty sequence')
    k, cases = summarise(l, key or (lambda v: v))
    kt, kl = merged_leaves(cases)
    K = subst_fn(k, kl)
    w = fresh('argm', I)
    j = z3.Int('j!m')
    assume(z3.And(w >= 0, w < l.nterm()))
    cmp = (lambda a, b: keycmp(kt, b, a, False)) if mx else (lambda a, b: keycmp(kt, a, b, False))
    scmp = (lambda a, b: keycmp(kt, b, a, True)) if mx else (lambda a, b: keycmp(kt, a, b, True))
    assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < l.nterm()), z3.And(cmp(K(w), K(j)), z3.Implies(j < w, scmp(K(w), K(j)))))))
    lo, leaf = getattr(l, 'shift', None) or (None, None)
    if lo is not None and leaf is l.leaf:      # the same in terms of the list the slice is taken from, for the solver to find instances
        assume(z3.simplify(z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < l.nterm() + lo), cmp(K(w), K(j - lo))))))
    return l.raw(w)
