"""Bounded cross-checks on the unmodified code: python -m xcheck.run C05 --json out."""
import sys, os, json, argparse, importlib, random, time, traceback, io, contextlib, signal
sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path[:0] = [REPO, '/opt/vp/compat']
import oldnames  # noqa


class Skip(Exception): pass


class X:
    """one run of a cross-check"""
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed, self.budget = prop, tier, seed, budget
        self.t0 = time.time()
        self.failures, self.samples, self.parts = [], [], {}
        self.evaluations, self.keys = 0, set()
        self.rule = ''
        self.n = 6 if tier == 'thorough' else 1
    def rng(self, name): return random.Random(f'{self.seed}:{self.prop}:{name}')
    def left(self): return self.t0 + self.budget - time.time()
    def case(self, part, key=None, sample=None):
        """count one evaluated case"""
        self.evaluations += 1
        self.parts[part] = self.parts.get(part, 0) + 1
        if key is not None: self.keys.add((part, repr(key)))
        if sample is not None and len(self.samples) < 8 and self.parts[part] <= 2: self.samples.append(dict(part=part, case=sample))
    def fail(self, key, label, **info):
        if len([f for f in self.failures if f['key'] == key]) < 2:
            self.failures.append(dict(key=key, label=label, **info))
    def api(self, f):
        """result of using an internal interface on a plain input: a part whose interface moved cannot run, which is no failure"""
        try: return f()
        except Exception as e: raise Skip(f'{type(e).__name__}: {e}')
    def check(self, cond, key, label, **info):
        if not cond: self.fail(key, label, **info)
        return bool(cond)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default='quick'); ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=120); ap.add_argument('--json')
    a = ap.parse_args()
    x = X(a.prop, a.tier, a.seed, a.budget)
    from . import base
    try: m = importlib.import_module('xcheck.' + a.prop.lower())
    except ModuleNotFoundError as e:
        if a.prop.lower() not in str(e): raise
        m = None
    buf = io.StringIO()
    parts = [base.rect_model] + ([getattr(m, n) for n in m.PARTS] if m else [])
    for f in parts:
        try:
            with contextlib.redirect_stdout(buf): f(x)
        except Skip as e: x.parts[f.__name__ + ' could not run'] = str(e)
        except Exception as e:
            # code under test raised where the oracle does not allow it, or its API moved
            tb = traceback.extract_tb(e.__traceback__)
            inrepo = [t for t in tb if t.filename.startswith(REPO + '/pdf2docx')]
            lastx = [t for t in tb if '/xcheck/' in t.filename]
            if inrepo:
                x.fail(f'{f.__name__}:exception', f'{f.__name__}: {type(e).__name__}: {e}', detail=traceback.format_exc()[-3000:])
            else:
                sys.stderr.write(traceback.format_exc())
                x.parts[f.__name__ + ' could not run'] = f'{type(e).__name__}: {e}'
    out = dict(failures=x.failures, evaluations=x.evaluations, distinct=len(x.keys), rule=getattr(m, 'RULE', '') if m else 'model comparison only',
               samples=x.samples, parts=x.parts, wall=time.time() - x.t0)
    if a.json: json.dump(out, open(a.json, 'w'), default=str)
    else: print(json.dumps(out, indent=1, default=str))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__': main()
