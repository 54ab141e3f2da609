"""Concrete side: runs contracts on the unmodified code of /repo (random inputs or given values)."""
import sys, os, json, time, random, argparse, traceback, io, contextlib
sys.dont_write_bytecode = True
REPO = os.environ.get('PYVC_REPO', '/repo')
sys.path[:0] = [REPO, '/opt/vp/compat']
import oldnames  # noqa


def run_one(con, seed, given=None):
    from . import spec
    c = spec.ConcCtx(con, random.Random(seed), given)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            con.fn(c)
    except spec.Reject: return 'reject', None, c
    except spec.Failed as e: return 'fail', dict(label=e.label, detail=e.detail, values=c.drawn, seed=seed), c
    except RecursionError: return 'fail', dict(label='no RecursionError', detail='', values=c.drawn, seed=seed), c
    except Exception as e:
        # the harness itself failed on this value (not the code under contract)
        return 'error', dict(label=f'{type(e).__name__}: {e}', detail=traceback.format_exc(), values=c.drawn, seed=seed), c
    return 'ok', None, c


def test_contract(con, seed, n, deadline):
    ok = rej = 0
    distinct = set()
    errs = []
    for i in range(n * 6):
        if ok >= n or time.time() > deadline: break
        st, info, c = run_one(con, f'{seed}:{con.id}:{i}')
        if st == 'ok':
            ok += 1
            distinct.add(repr(sorted(c.drawn.items(), key=lambda t: t[0])))
        elif st == 'reject': rej += 1
        elif st == 'fail': return dict(id=con.id, status='fail', ok=ok, rejected=rej, distinct=len(distinct), info=info)
        else:
            errs.append(info)
            if len(errs) > 5: break
    return dict(id=con.id, status='error' if errs and not ok else 'ok', ok=ok, rejected=rej, distinct=len(distinct), info=errs[0] if errs else None)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop'); ap.add_argument('--only'); ap.add_argument('--seed', default='1'); ap.add_argument('--scale', type=float, default=1)
    ap.add_argument('--budget', type=float, default=40); ap.add_argument('--json'); ap.add_argument('--given')
    a = ap.parse_args()
    from .verify import load_contracts
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    names = sorted(f[:-3] for f in os.listdir(os.path.join(here, 'contracts')) if f.endswith('.py') and not f.startswith('_'))
    cons = [c for c in load_contracts(names) if (not a.prop or a.prop in c.props) and (not a.only or a.only in c.id) and c.n > 0]
    out = []
    t0 = time.time()
    if a.given:
        given = json.load(open(a.given))
        for g in given:
            for con in cons:
                if con.id != g['id']: continue
                st, info, c = run_one(con, g.get('seed', '1:replay'), g.get('values'))
                out.append(dict(id=con.id, status=st, info=info))
    else:
        for k, con in enumerate(cons):
            left = (t0 + a.budget - time.time()) / (len(cons) - k)
            out.append(test_contract(con, a.seed, max(1, int(con.n * a.scale)), time.time() + max(left, 0.5)))
    if a.json: json.dump(out, open(a.json, 'w'), default=str)
    else:
        for r in out: print(r)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__': main()
