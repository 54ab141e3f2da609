"""Mechanical extraction: rewrites the AST of /repo's functions so that they run on
symbolic values.  What it changes (nothing is dropped from a function body):
 - for/while: a call that cuts the loop at its invariant when the iteration count is symbolic
 - and/or/not/if-expressions/chained comparisons/`is`/`in`: calls that may build one formula instead of forking
 - comprehensions and generator expressions: calls with the same element/condition code as lambdas
 - list/set displays, f-strings, str.join: symbolic-aware constructors
 - generator functions: run eagerly (the yielded values are collected, then iterated)
 - attribute/subscript assignment: a call that also records the write (frame inference)
Type annotations are dropped; decorators, defaults, control flow, exceptions, closures, dispatch stay Python's own."""
import ast

MUT = {'append', 'pop', 'add', 'update', 'extend', 'remove', 'insert', 'clear', 'sort', 'reverse', 'parse', 'popleft', 'write', 'save', 'discard', 'setdefault', 'next'}


def name(n, store=False): return ast.Name(id=n, ctx=ast.Store() if store else ast.Load())
def vc(attr): return ast.Attribute(value=name('_vc'), attr=attr, ctx=ast.Load())
def call(f, *args): return ast.Call(func=f, args=list(args), keywords=[])
def lam(body, args=()): return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
def const(v): return ast.Constant(value=v)


def assigned_names(stmts):
    out = []
    class V(ast.NodeVisitor):
        def visit_Name(s, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out: out.append(n.id)
        def visit_FunctionDef(s, n):
            if n.name not in out: out.append(n.name)
        def visit_Lambda(s, n): pass
        def visit_ListComp(s, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_ExceptHandler(s, n):
            s.generic_visit(n)
    for st in stmts: V().visit(st)
    return out


def pure_enough(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT: return False
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)): return False
    return True


def own_yield(node):
    if isinstance(node, (ast.Yield, ast.YieldFrom)): return True
    if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return False
    return any(own_yield(x) for x in ast.iter_child_nodes(node))


class _Eager(ast.NodeTransformer):
    def visit_FunctionDef(s, n): return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef
    def visit_Expr(s, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            m = 'append' if isinstance(n.value, ast.Yield) else 'extend'
            return ast.Expr(value=call(ast.Attribute(value=name('yielded_'), attr=m, ctx=ast.Load()), n.value.value or const(None)))
        return s.generic_visit(n)
    def visit_Return(s, n): return ast.Return(value=call(vc('genexp'), ast.Lambda(args=lam(const(None)).args, body=name('yielded_'))))


def eager(n):
    """generator functions run eagerly: the yielded values are collected and returned as an iterator"""
    n.body = [ast.Assign(targets=[name('yielded_', True)], value=call(vc('yields')))] + [_Eager().visit(b) for b in n.body] + \
        [_Eager().visit_Return(None)]
    return n


class Tr(ast.NodeTransformer):
    def __init__(self, module):
        self.module, self.stack, self.loops, self.depth = module, [], [], 0
        self.tmp = 0

    def newtmp(self):
        self.tmp += 1
        return f'_t{self.tmp}'

    # scopes
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        n.body = [x for b in n.body for x in (b if isinstance(b, list) else [b])]
        self.stack.pop()
        return n

    def _func(self, n):
        self.stack.append(n.name)
        self.loops.append(0)
        self.depth += 1
        n.returns = None
        for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs: a.annotation = None
        if n.args.vararg: n.args.vararg.annotation = None
        if n.args.kwarg: n.args.kwarg.annotation = None
        body = []
        for s in n.body:
            r = self.visit(s)
            if r is None: continue
            body.extend(r if isinstance(r, list) else [r])
        n.body = body or [ast.Pass()]
        self.depth -= 1
        self.loops.pop(); self.stack.pop()
        if any(own_yield(b) for b in n.body): n = eager(n)
        if n.name == '__bool__': n.decorator_list.append(ast.Attribute(value=name('_vc'), attr='boolfn', ctx=ast.Load()))
        return n
    visit_FunctionDef = _func

    def visit(self, node):
        if self.depth == 0 and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module, ast.If, ast.Try)):
            return node
        return super().visit(node)

    def visit_AnnAssign(self, n):
        if n.value is None: return None
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    # loops
    def _loopkey(self):
        k = self.loops[-1]; self.loops[-1] += 1
        return const(f'{self.module}:{".".join(self.stack)}#{k}')

    def _prologue(self, h, key, names, first):
        pre = [ast.Assign(targets=[name(h, True)], value=first)]
        for v in names:
            pre.append(ast.If(test=ast.Compare(left=const(v), ops=[ast.In()], comparators=[ast.Attribute(value=name(h), attr='vals', ctx=ast.Load())]),
                              body=[ast.Assign(targets=[name(v, True)], value=ast.Subscript(value=ast.Attribute(value=name(h), attr='vals', ctx=ast.Load()), slice=const(v), ctx=ast.Load()))], orelse=[]))
        return pre

    def visit_For(self, n):
        key = self._loopkey()
        it = self.visit(n.iter)
        names = assigned_names([n])
        h = f'_h{self.newtmp()}'
        first = call(vc('for_enter'), key, it, call(name('_locals')), ast.List(elts=[const(x) for x in names], ctx=ast.Load()))
        pre = self._prologue(h, key, names, first)
        tgt, extra = self.fix_target(n.target)
        body = self.block(n.body)
        new = ast.For(target=tgt, iter=name(h), body=extra + body, orelse=self.block(n.orelse))
        return [ast.copy_location(x, n) for x in pre + [self.closing(h, new)]]

    def visit_While(self, n):
        key = self._loopkey()
        names = assigned_names([n])
        h = f'_h{self.newtmp()}'
        pre = self._prologue(h, key, names, call(vc('while_enter'), key, call(name('_locals')), ast.List(elts=[const(x) for x in names], ctx=ast.Load())))
        test = ast.BoolOp(op=ast.And(), values=[call(ast.Attribute(value=name(h), attr='step', ctx=ast.Load())), self.visit(n.test)])
        new = ast.While(test=test, body=self.block(n.body), orelse=self.block(n.orelse))
        return [ast.copy_location(x, n) for x in pre + [self.closing(h, new)]]

    def closing(self, h, loop):
        return ast.Try(body=[loop], handlers=[], orelse=[], finalbody=[
            ast.Expr(call(ast.Attribute(value=name(h), attr='close', ctx=ast.Load())))])

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None: continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_If(self, n):
        plain = isinstance(n.test, (ast.Name, ast.Attribute, ast.Call, ast.Subscript))
        n.test = self.visit(n.test)
        if plain: n.test = ast.copy_location(call(vc('test'), n.test), n.test)
        n.body = self.block(n.body) or [ast.Pass()]
        n.orelse = self.block(n.orelse)
        return n

    def visit_Try(self, n):
        n.body = self.block(n.body) or [ast.Pass()]
        for h in n.handlers: h.body = self.block(h.body) or [ast.Pass()]
        n.orelse, n.finalbody = self.block(n.orelse), self.block(n.finalbody)
        return n

    def visit_With(self, n):
        n.items = [self.visit(i) for i in n.items]
        n.body = self.block(n.body) or [ast.Pass()]
        return n

    # assignment
    def fix_target(self, t):
        """(target with temporaries instead of attributes/subscripts, statements storing them)"""
        if isinstance(t, ast.Name): return t, []
        if isinstance(t, (ast.Tuple, ast.List)):
            elts, extra = [], []
            for e in t.elts:
                a, b = self.fix_target(e)
                elts.append(a); extra += b
            return ast.Tuple(elts=elts, ctx=ast.Store()), extra
        if isinstance(t, ast.Starred):
            a, b = self.fix_target(t.value)
            return ast.Starred(value=a, ctx=ast.Store()), b
        tmp = self.newtmp()
        return name(tmp, True), self.store(t, name(tmp))

    def store(self, t, value):
        if isinstance(t, ast.Attribute):
            return [ast.copy_location(ast.Expr(call(vc('setattr'), self.visit(t.value), const(self.mangle(t.attr)), value)), t)]
        if isinstance(t, ast.Subscript):
            return [ast.copy_location(ast.Expr(call(vc('setitem'), self.visit(t.value), self.slice(t.slice), value)), t)]
        return [ast.copy_location(ast.Assign(targets=[t], value=value), t)]

    def mangle(self, attr): return attr

    def slice(self, s):
        if isinstance(s, ast.Slice):
            f = lambda x: self.visit(x) if x is not None else const(None)
            return call(name('slice'), f(s.lower), f(s.upper), f(s.step))
        return self.visit(s)

    def visit_Assign(self, n):
        val = self.visit(n.value)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            n.value = val
            return n
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            return self.store(n.targets[0], val)
        out = []
        if len(n.targets) > 1:
            tmp = self.newtmp()
            out.append(ast.copy_location(ast.Assign(targets=[name(tmp, True)], value=val), n))
            val = name(tmp)
        for t in n.targets:
            t2, extra = self.fix_target(t)
            v = call(vc('unpack'), val, const(-1 if any(isinstance(e, ast.Starred) for e in t2.elts) else len(t2.elts))) if isinstance(t2, ast.Tuple) else val
            out.append(ast.copy_location(ast.Assign(targets=[t2], value=v), n))
            out += extra
        return out

    def visit_AugAssign(self, n):
        val = self.visit(n.value)
        op = type(n.op).__name__
        if isinstance(n.target, ast.Name):
            return ast.copy_location(ast.Assign(targets=[n.target], value=call(vc('iop'), const(op), name(n.target.id), val)), n)
        tmp = self.newtmp()
        out = [ast.copy_location(ast.Assign(targets=[name(tmp, True)], value=self.visit(n.target.value)), n)]
        if isinstance(n.target, ast.Attribute):
            cur = ast.Attribute(value=name(tmp), attr=n.target.attr, ctx=ast.Load())
            out.append(ast.copy_location(ast.Expr(call(vc('setattr'), name(tmp), const(n.target.attr), call(vc('iop'), const(op), cur, val))), n))
        else:
            tmp2 = self.newtmp()
            out.append(ast.copy_location(ast.Assign(targets=[name(tmp2, True)], value=self.slice(n.target.slice)), n))
            cur = ast.Subscript(value=name(tmp), slice=name(tmp2), ctx=ast.Load())
            out.append(ast.copy_location(ast.Expr(call(vc('setitem'), name(tmp), name(tmp2), call(vc('iop'), const(op), cur, val))), n))
        return out

    # expressions
    def visit_BoolOp(self, n):
        f = 'and_' if isinstance(n.op, ast.And) else 'or_'
        pure = all(pure_enough(v) for v in n.values[1:])
        vals = [self.visit(v) for v in n.values]
        return ast.copy_location(call(vc(f), const(pure), vals[0], *[lam(v) for v in vals[1:]]), n)

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not): return ast.copy_location(call(vc('not_'), n.operand), n)
        return n

    def visit_IfExp(self, n):
        pure = pure_enough(n.body) and pure_enough(n.orelse)
        return ast.copy_location(call(vc('ite'), const(pure), self.visit(n.test), lam(self.visit(n.body)), lam(self.visit(n.orelse))), n)

    def visit_Compare(self, n):
        if len(n.ops) > 1:
            mids = n.comparators[:-1]
            if all(isinstance(m, (ast.Name, ast.Constant, ast.Attribute, ast.Subscript)) for m in mids):
                left, parts = n.left, []
                for op, c in zip(n.ops, n.comparators):
                    parts.append(ast.Compare(left=left, ops=[op], comparators=[c])); left = c
                return self.visit(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), n))
            self.generic_visit(n)
            return n
        l, r, op = self.visit(n.left), self.visit(n.comparators[0]), n.ops[0]
        m = {ast.Is: 'is_', ast.IsNot: 'isnot', ast.In: 'in_', ast.NotIn: 'notin', ast.Eq: 'eq', ast.NotEq: 'ne'}.get(type(op))
        if m: return ast.copy_location(call(vc(m), l, r), n)
        return ast.copy_location(ast.Compare(left=l, ops=[op], comparators=[r]), n)

    def _comp(self, gens, elt):
        """nested lambdas for generators: calls comp(iter, lambda x: elt, [conds])"""
        g = gens[0]
        inner = elt() if len(gens) == 1 else self._comp(gens[1:], elt)
        def bind(body):
            if isinstance(g.target, ast.Name): return lam(body, [g.target.id])
            tmp = self.newtmp()
            names = []
            def flat(t):
                if isinstance(t, ast.Name): names.append(t.id); return t.id
                return [flat(e) for e in t.elts]
            shape = flat(g.target)
            return lam(ast.Call(func=lam(body, names), args=[ast.Starred(value=call(vc('flat'), name(tmp), const(repr(shape))), ctx=ast.Load())], keywords=[]), [tmp])
        conds = [bind(self.visit(c)) for c in g.ifs]
        it = self.visit(g.iter)
        f = 'comp' if len(gens) == 1 else 'compflat'
        return call(vc(f), it, bind(inner), ast.List(elts=conds, ctx=ast.Load()))

    def visit_ListComp(self, n): return ast.copy_location(self._comp(n.generators, lambda: self.visit(n.elt)), n)
    def visit_GeneratorExp(self, n): return ast.copy_location(call(vc('genexp'), lam(self._comp(n.generators, lambda: self.visit(n.elt)))), n)
    def visit_SetComp(self, n): return ast.copy_location(call(vc('mkset'), self._comp(n.generators, lambda: self.visit(n.elt))), n)
    def visit_DictComp(self, n):
        pair = lambda: ast.Tuple(elts=[self.visit(n.key), self.visit(n.value)], ctx=ast.Load())
        return ast.copy_location(call(vc('mkdict'), self._comp(n.generators, pair)), n)

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load): return ast.copy_location(call(vc('mklist'), ast.Tuple(elts=n.elts, ctx=ast.Load())), n)
        return n

    def visit_Set(self, n):
        self.generic_visit(n)
        return ast.copy_location(call(vc('mkset'), ast.Tuple(elts=n.elts, ctx=ast.Load())), n)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant): parts.append(v)
            else:
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(x.value for x in v.format_spec.values if isinstance(x, ast.Constant))
                parts.append(ast.Tuple(elts=[self.visit(v.value), const(v.conversion), const(spec)], ctx=ast.Load()))
        return ast.copy_location(call(vc('fstr'), *parts), n)

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1:
            return ast.copy_location(call(vc('join'), n.func.value, n.args[0]), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and len(n.args) == 1 and not n.keywords:
            return ast.copy_location(call(vc('update'), n.func.value, n.args[0]), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) in (1, 2) and not n.keywords:
            return ast.copy_location(call(vc('get'), n.func.value, *n.args), n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'set' and len(n.args) == 2 and not n.keywords:
            return ast.copy_location(call(vc('set'), n.func.value, *n.args), n)
        if isinstance(n.func, ast.Name) and n.func.id == 'locals': raise SyntaxError('locals()')
        if any(isinstance(a, ast.Starred) for a in n.args):
            n.args = [ast.Starred(value=call(vc('star'), a.value), ctx=ast.Load()) if isinstance(a, ast.Starred) else a for a in n.args]
        return n

    def visit_Subscript(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not isinstance(n.slice, (ast.Slice, ast.Constant)):
            return ast.copy_location(call(vc('getitem'), n.value, n.slice), n)
        return n

    def visit_Lambda(self, n):
        n.body = self.visit(n.body)
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        return n


def transform(source, module, filename):
    tree = ast.parse(source, filename)
    tree = Tr(module).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')
