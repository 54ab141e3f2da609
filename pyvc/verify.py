"""Generates and discharges the obligations of contracts (symbolic side)."""
import builtins, sys, os, time, json, subprocess, tempfile, traceback, random


def z3_discharge(ob, timeout):
    import z3
    from .core import has_quant, nonlinear
    t0 = time.time()
    if not has_quant(ob.goal):
        # quantified or nonlinear assumptions are often irrelevant, and always expensive
        free = [a for a in ob.assumptions if not has_quant(a)]
        tries = [free] if len(free) < len(ob.assumptions) else []
        if not nonlinear(ob.goal):
            lin = [a for a in free if not nonlinear(a)]
            if len(lin) < len(free): tries.insert(0, lin)
        for t in tries:
            s = z3.Solver()
            s.set('timeout', int(min(3, timeout) * 1000))
            s.add(*t)
            s.add(z3.Not(ob.goal))
            if s.check() == z3.unsat:
                ob.time = time.time() - t0
                ob.status, ob.backend = 'proved', 'z3'
                return s
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for a in ob.assumptions: s.add(a)
    s.add(z3.Not(ob.goal))
    r = s.check()
    ob.time = time.time() - t0
    if r == z3.unsat: ob.status, ob.backend = 'proved', 'z3'
    elif r == z3.sat: ob.status, ob.backend, ob.model = 'refuted', 'z3', s.model()
    else:
        ob.status, ob.backend = 'unknown', 'z3'
        try: ob.model = s.model()
        except z3.Z3Exception: pass
    return s


def cvc5_discharge(s, ob, timeout):
    t0 = time.time()
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        p = subprocess.run(['cvc5', f'--tlimit={int(timeout * 1000)}', '--full-saturate-quant', f.name], capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().splitlines()
        if out and out[0] == 'unsat': ob.status, ob.backend = 'proved', 'cvc5'
    except subprocess.TimeoutExpired: pass
    finally: os.unlink(f.name)
    ob.time += time.time() - t0


def apply_stubs(con, ctx):
    """replace callees by their contracts; returns undo list"""
    undo = []
    for t, stub in con.stubs.items():
        m, q = t.split(':')
        owner = ctx.mod(m)
        parts = q.split('.')
        for p in parts[:-1]: owner = getattr(owner, p)
        new = stub(ctx)
        if len(parts) == 1 and parts[0] not in owner.__dict__ and hasattr(builtins, parts[0]):       # a builtin, in this module only
            undo.append((owner, parts[0], getattr(builtins, parts[0])))
            setattr(owner, parts[0], new)
            continue
        raw = owner.__dict__[parts[-1]]
        if isinstance(raw, staticmethod): new = staticmethod(new)
        elif isinstance(raw, property): new = property(new)
        elif isinstance(raw, classmethod): new = classmethod(new)
        undo.append((owner, parts[-1], raw))
        setattr(owner, parts[-1], new)
        # modules that imported the name
        if len(parts) == 1:
            for k, mod in list(sys.modules.items()):
                if k.startswith('pdf2docx') and mod is not owner and mod.__dict__.get(parts[-1]) is raw:
                    undo.append((mod, parts[-1], raw)); setattr(mod, parts[-1], new)
    return undo


def model_values(model, vars_):
    """named parameter values of a z3 model as JSON-able data"""
    import z3
    from .values import VList, MRect, SymEnum, VSet, Str
    from .core import Num, B, lift
    def num(t):
        v = model.eval(t, model_completion=True)
        if z3.is_int_value(v): return v.as_long()
        if z3.is_rational_value(v): return float(v.numerator_as_long()) / float(v.denominator_as_long())
        if z3.is_algebraic_value(v): return float(v.approx(10).as_fraction())
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        if z3.is_string_value(v): return v.as_string()
        raise ValueError(str(v))
    def val(ty, v):
        if isinstance(v, (int, float, str, bool)): return v
        if isinstance(v, Num): return num(v.t)
        if isinstance(v, B): return num(v.t)
        if isinstance(v, Str): return num(v.t)
        if isinstance(v, SymEnum): return num(v.t)
        if isinstance(v, MRect): return [val(None, x) for x in v.c]
        if isinstance(v, tuple): return [val(None, x) for x in v]
        if isinstance(v, VList):
            n = num(v.nterm())
            if n > 40: raise ValueError('list too long')
            return [val(None, v.raw(z3.IntVal(k))) for k in range(n)]
        if isinstance(v, VSet): return [i for i in range(-3, 40) if num(z3.Select(v.a, i))]
        import enum
        if isinstance(v, enum.Enum): return list(type(v)).index(v)
        if v is None: return None
        raise ValueError(type(v).__name__)
    out = {}
    for n, (ty, v) in vars_.items():
        try: out[n] = val(ty, v)
        except Exception as e: out['!missing'] = out.get('!missing', []) + [f'{n}: {e}']
    return out


def skeleton(con):
    """the loops that the invariants of a contract were written for: kind, target and what is iterated"""
    import ast
    from . import loader
    m, q = con.target.split(':')
    fns = sorted({f'pdf2docx.{m}:{q}'} | {'pdf2docx.' + k.split('#')[0] for k in con.loops if not isinstance(k, int)})
    out = []
    for f in fns:
        mod, qual = f.split(':')
        if mod not in loader.SOURCES: return None
        node = ast.parse(loader.SOURCES[mod])
        for part in qual.split('.'):
            node = next((n for n in node.body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == part), None)
            if node is None: return None
        for n in ast.walk(node):
            if isinstance(n, ast.For): out.append((n.lineno, f'{f} for {ast.unparse(n.target)} in {ast.unparse(n.iter)}'))
            elif isinstance(n, ast.While): out.append((n.lineno, f'{f} while {ast.unparse(n.test)}'))
            elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)): out.append((n.lineno, f'{f} {type(n).__name__}'))
    return [t for _, t in sorted(out)]


LOOPFILE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'loops.json')


def run_contract(con, tier='quick', budget=150):
    res = run_contract0(con, tier, budget)
    if res['status'] == 'failed' and con.loops:
        try: ref = json.load(open(LOOPFILE)).get(con.id)
        except Exception: ref = None
        res['loops_rewritten'] = ref is not None and skeleton(con) != ref
    if con.within and res['status'] == 'proved':       # holds within the bound: not counted as proved
        res.update(status='bounded', reason=f'{con.within}: {res["discharged"]} obligations hold within this bound', obligations=0, discharged=0, z3=0, cvc5=0)
    return res


def run_contract0(con, tier='quick', budget=150):
    """-> result dict"""
    from . import core, spec, runtime
    from .core import S, Unsupported, Restart, explore, PathEnd
    spec.MODE['sym'] = True
    t0 = time.time()
    mult = 1 if tier == 'quick' else 4
    res = dict(id=con.id, target=con.target, name=con.name, props=con.props, status='?', obligations=0, discharged=0, z3=0, cvc5=0,
               solver_time=0.0, paths=0, failed=[], reason='', canary=None, labels=[], assumed=con.assumes)
    if con.bounded:
        res['status'], res['reason'] = 'bounded', con.bounded
        return res
    ctxs = []
    runtime.LOOPS.clear()
    m, q = con.target.split(':')
    for k, l in con.loops.items():
        if isinstance(k, int): k = f'pdf2docx.{m}:{q}#{k}'
        else: k = 'pdf2docx.' + k
        if l.types and not hasattr(l, 'rawtypes'): l.rawtypes = l.types
        runtime.LOOPS[k] = l
    core.State.deadline = t0 + budget * mult
    S.loop_mods = {}
    ends = []
    saved_cls = {}
    def go():
        ctx = spec.SymCtx(con)
        spec._q[0] = 0
        ctxs.append(ctx)
        undo = apply_stubs(con, ctx)
        try:
            con.fn(ctx)
            if ctx.done and core.is_fresh(): ends.append((ctx, [t for t, _ in S.pc] + list(S.axioms.values())))
        finally:
            for o, n, r in undo[::-1]: setattr(o, n, r)
            for (o, n), v in list(S.ghost.get('clsattr', {}).items()): setattr(o, n, v)
    obctx = {}
    try:
        ctxchk = spec.SymCtx(con)
        ctxchk.target(con.target)
        spec.install_schemas(ctxchk)
        for l in con.loops.values():
            if hasattr(l, 'rawtypes'): l.types = {k: ctxchk.ty(v) for k, v in l.rawtypes.items()}
        for tries in range(60):
            S.obligations = []
            ends.clear()
            try:
                # remember which context an obligation belongs to
                n0 = [0]
                def go2():
                    a = len(S.obligations)
                    try: go()
                    finally:
                        for o in S.obligations[a:]: obctx[id(o)] = ctxs[-1]
                explore(go2, con.max_paths)
                break
            except Restart: continue
        else: raise Unsupported('loop write sets do not converge')
    except Unsupported as e:
        res['status'], res['reason'] = 'unsupported', str(e)
        res['trace'] = ''.join(traceback.format_exc()[-1500:])
        res['wall'] = time.time() - t0
        return res
    except AttributeError as e:
        res['status'], res['reason'] = 'unsupported', f'{type(e).__name__}: {e}'
        res['trace'] = ''.join(traceback.format_exc()[-2500:])
        res['wall'] = time.time() - t0
        return res
    except Exception as e:
        res['status'], res['reason'] = 'unsupported', f'{type(e).__name__}: {e}'
        res['trace'] = ''.join(traceback.format_exc()[-2500:])
        res['wall'] = time.time() - t0
        return res
    res['paths'] = S.paths
    res['obligations'] = len(S.obligations)
    res['gen_time'] = time.time() - t0
    res['labels'] = sorted({o.label for o in S.obligations})
    if not S.obligations or not ends:
        # every path ends before the postconditions
        res['status'], res['reason'] = 'unsupported', 'vacuous: no path reaches the postconditions'
        for o in S.obligations:
            s = z3_discharge(o, con.timeout * mult)
            if o.status == 'refuted':
                res['status'] = 'failed'
                res['failed'].append(dict(label=o.label, status=o.status, values=model_values(o.model, obctx[id(o)].vars)))
                break
        res['wall'] = time.time() - t0
        return res
    # vacuity canary: some path's assumptions must not be contradictory
    import z3
    canary = False
    for ctx, pc in ends[:6]:
        s = z3.Solver(); s.set('timeout', 2000); s.add(*pc)
        if s.check() != z3.unsat: canary = True; break
    res['canary'] = canary
    if not canary:
        res['status'], res['reason'] = 'unsupported', 'vacuous: contradictory assumptions'
        res['wall'] = time.time() - t0
        return res
    seen = {}
    deadline = t0 + budget * mult
    for o in S.obligations:
        left = deadline - time.time()
        if left < 1: o.status = 'unknown'; o.backend = 'none (time budget)'
        else:
            s = z3_discharge(o, min(con.timeout * mult, left))
            if o.status == 'unknown' and left > 2: cvc5_discharge(s, o, min(con.timeout * mult, left))
        res['solver_time'] += o.time
        if o.status == 'proved':
            res['discharged'] += 1
            res[o.backend] += 1
        else:
            vals = None
            if o.model is not None:
                try: vals = model_values(o.model, obctx[id(o)].vars)
                except Exception as e: vals = {'!error': str(e)}
            txt = str(o.goal)
            res['failed'].append(dict(label=o.label, status=o.status, backend=o.backend, time=o.time, values=vals, goal=txt[:600], path=str(o.path)[:200]))
            if len(res['failed']) >= 6: break
    res['status'] = 'proved' if not res['failed'] else 'failed'
    res['wall'] = time.time() - t0
    return res


def load_contracts(names):
    import importlib
    from . import spec
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    for n in names: importlib.import_module('contracts.' + n)
    return spec.CONTRACTS


def _worker(args):
    i, tier, budget, q = args
    from . import spec
    con = spec.CONTRACTS[i]
    try: r = run_contract(con, tier, budget)
    except BaseException as e:
        r = dict(id=con.id, target=con.target, name=con.name, props=con.props, status='unsupported', reason=f'{type(e).__name__}: {e}', trace=traceback.format_exc()[-2000:],
                 obligations=0, discharged=0, z3=0, cvc5=0, solver_time=0.0, paths=0, failed=[], labels=[])
    q.put((i, r))
    q.close(); q.join_thread()
    os._exit(0)


def verify(prop=None, tier='quick', only=None, jobs=8, budget=100, modules=None):
    """verify all contracts of a property in parallel forked processes"""
    from . import loader
    loader.load()
    import multiprocessing as mp
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    names = modules or sorted(f[:-3] for f in os.listdir(os.path.join(here, 'contracts')) if f.endswith('.py') and not f.startswith('_'))
    cons = load_contracts(names)
    todo = [i for i, c in enumerate(cons) if (prop is None or prop in c.props) and (only is None or only in c.id)]
    out, running, queue = {}, {}, list(todo)
    fork = mp.get_context('fork')
    while queue or running:
        while queue and len(running) < jobs:
            i = queue.pop(0)
            q = fork.SimpleQueue() if False else fork.Queue()
            p = fork.Process(target=_worker, args=((i, tier, budget, q),))
            p.start()
            running[i] = (p, q, time.time())
        time.sleep(0.02)
        for i in list(running):
            p, q, t = running[i]
            lim = (budget * (1 if tier == 'quick' else 4)) * 2 + 30
            if not q.empty():
                _, r = q.get(); out[i] = r; p.join(5); del running[i]
            elif not p.is_alive():
                if not q.empty():
                    _, r = q.get(); out[i] = r
                else:
                    c = cons[i]
                    out[i] = dict(id=c.id, target=c.target, name=c.name, props=c.props, status='unsupported', reason=f'worker died ({p.exitcode})', obligations=0, discharged=0, z3=0, cvc5=0, solver_time=0.0, paths=0, failed=[], labels=[])
                del running[i]
            elif time.time() - t > lim:
                p.kill(); c = cons[i]
                out[i] = dict(id=c.id, target=c.target, name=c.name, props=c.props, status='unsupported', reason='time limit', obligations=0, discharged=0, z3=0, cvc5=0, solver_time=0.0, paths=0, failed=[], labels=[])
                del running[i]
    return [out[i] for i in todo]


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop'); ap.add_argument('--only'); ap.add_argument('--tier', default='quick')
    ap.add_argument('--json'); ap.add_argument('--jobs', type=int, default=8); ap.add_argument('--budget', type=float, default=100)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    rs = verify(a.prop, a.tier, a.only, a.jobs, a.budget)
    if a.json: json.dump(rs, open(a.json, 'w'), indent=1, default=str)
    else:
        for r in rs:
            print(f"{r['status']:12} {r['discharged']}/{r['obligations']} paths={r['paths']} {r.get('wall', 0):.1f}s solver={r['solver_time']:.1f}s  {r['id']}  {r['reason'][:200]}")
            if a.v and r.get('trace'): print(r['trace'])
            for f in r['failed'][:3]: print('     ', f['label'], f['status'], f.get('backend'), f.get('values'))
            if a.v:
                for f in r['failed'][:2]: print('        goal', f.get('goal'))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__': main()
