#!/usr/bin/env python3
"""Decides one property: python3 check.py C05 [--tier quick|thorough].

1. proof: generates the obligations of the property's contracts from /repo's current source
   (pyvc.verify) and discharges them with z3/cvc5;
2. cross-check (bounded): the same contracts and the property-level oracle of xcheck/ on the
   unmodified code of /repo, used to find and replay concrete failing inputs.
Exit 0: held.  Exit 1 with a VIOLATION line: broken."""
import sys, os, json, time, subprocess, argparse, tempfile, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENCV_NUM_THREADS='1')

TRUSTED = [
    'pyvc itself: the mechanical transformation (pyvc/transform.py), path exploration and loop cutting (pyvc/core.py, pyvc/runtime.py), symbolic values (pyvc/values.py)',
    'CPython semantics of everything the transformation leaves alone (classes, dispatch, closures, exceptions, argument binding)',
    'z3 5.3.2 and cvc5 1.1.2',
    'machine floats are treated as mathematical reals; float literals as the decimals written; round() is only known to be within 1/2 and monotone',
    'fitz.Rect is replaced by a model of its Python wrapper over reals (pyvc/values.py MRect; compared with the real class on random rects by every run)',
]


def known_findings():
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    out = []
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l.split()[1:3])
                out.append((d['property'], d['key'], l.split(None, 3)[3].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f'check-{prop}-')
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    try:
        return run(prop, tier, seed, t0, tmp, replays)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, seed, t0, tmp, replays):
    thorough = tier == 'thorough'
    scale = '6' if thorough else '1'
    pj, cj, xj = [os.path.join(tmp, n) for n in ('proof.json', 'conc.json', 'x.json')]
    logs = {}
    def spawn(name, *cmd):
        logs[name] = open(os.path.join(tmp, name + '.log'), 'w')
        return subprocess.Popen(cmd, env=dict(ENV, TMPDIR=tmp), stdout=logs[name], stderr=subprocess.STDOUT, cwd=tmp)
    p1 = spawn('proof', PY, '-m', 'pyvc.verify', '--prop', prop, '--tier', tier, '--json', pj, '--jobs', '6')
    p2 = spawn('conc', PY, '-m', 'pyvc.concrete', '--prop', prop, '--seed', str(seed), '--scale', scale, '--budget', '400' if thorough else '60', '--json', cj)
    p3 = spawn('x', PY, '-m', 'xcheck.run', prop, '--tier', tier, '--seed', str(seed), '--json', xj, '--budget', '600' if thorough else '150')
    def wait(p, lim):
        try: p.wait(max(1, t0 + lim - time.time()))
        except subprocess.TimeoutExpired: p.kill(); p.wait()
    lim = 3000 if thorough else 560
    for p in (p2, p3, p1): wait(p, lim)
    def load(f, d):
        try: return json.load(open(f))
        except Exception: return d
    proof, conc, x = load(pj, None), load(cj, None), load(xj, None)
    problems = []
    for n, d in (('proof', proof), ('conc', conc), ('x', x)):
        if d is None:
            problems.append(n)
            sys.stderr.write(f'--- {n} produced no result\n' + open(os.path.join(tmp, n + '.log')).read()[-3000:] + '\n')
    if proof is None: proof = []
    if x is None and not any(r['status'] == 'fail' for r in conc or []):
        print(f'ERROR: {problems} produced no result')
        return 2
    conc = conc or []
    x = x or dict(failures=[], evaluations=0, distinct=0, rule='', samples=[], parts={})
    violations = []      # (label, replay dict, suffix)
    known = [(k, d) for p, k, d in known_findings() if p == prop]
    seen_known = []
    more = []
    def report_x(failures):
        for f in failures:
            hit = [kd for kd in known if kd[0] == f.get('key')]
            if hit: seen_known.append(hit[0]); continue
            violations.append((f['label'], {**f, **({'drawn': f['kind']} if 'kind' in f else {}), 'kind': 'cross-check'}, ''))
    report_x(x['failures'])
    for r in conc:
        if r['status'] == 'fail':
            violations.append((r['info']['label'], dict({k: v for k, v in r['info'].items() if k not in ('kind', 'contract', 'rerun')}, kind='contract on concrete input', contract=r['id'],
                               rerun=f'{PY} -m pyvc.concrete --given FILE'), ''))
    # failed obligations
    failed = [r for r in proof if r['status'] == 'failed']
    concerrs = {r['id'] for r in conc if r['status'] == 'fail'}
    for r in failed:
        if r['id'] in concerrs: continue
        f = r['failed'][0]
        hit = None
        given = [dict(id=r['id'], values=v['values'], seed=f'{seed}:{k}') for v in r['failed'] for k in range(3) if v.get('values')]
        if given:
            gj, oj = os.path.join(tmp, 'given.json'), os.path.join(tmp, 'given-out.json')
            json.dump(given, open(gj, 'w'))
            subprocess.run([PY, '-m', 'pyvc.concrete', '--given', gj, '--json', oj], env=dict(ENV, TMPDIR=tmp), cwd=tmp, capture_output=True, timeout=120)
            for g in load(oj, []):
                if g['status'] == 'fail': hit = g['info']; break
        if hit is None and not violations:
            oj = os.path.join(tmp, 'search.json')
            try:
                subprocess.run([PY, '-m', 'pyvc.concrete', '--prop', prop, '--only', r['id'], '--seed', f'{seed}s', '--scale', '40', '--budget', '40', '--json', oj],
                               env=dict(ENV, TMPDIR=tmp), cwd=tmp, capture_output=True, timeout=90)
            except subprocess.TimeoutExpired: pass
            for g in load(oj, []):
                if g['status'] == 'fail': hit = g['info']; break
        rep = dict(kind='failed obligation', contract=r['id'], obligation=f['label'], status=f['status'], verifier_output=r['failed'])
        if hit:
            rep.update(failing_input=hit)
            violations.append((f"{r['id']}: {f['label']}", rep, ''))
        elif not violations:
            # slower second opinion before an alarm without an input
            if all(v['status'] == 'unknown' for v in r['failed']) and not r.get('loops_rewritten'):
                oj = os.path.join(tmp, 'retry.json')
                try:
                    subprocess.run([PY, '-m', 'pyvc.verify', '--only', r['id'], '--prop', prop, '--tier', 'thorough', '--json', oj, '--budget', '60'],
                                   env=dict(ENV, TMPDIR=tmp), cwd=tmp, capture_output=True, timeout=300)
                except subprocess.TimeoutExpired: pass
                rr = load(oj, [])
                if rr and rr[0]['status'] == 'proved':
                    r.update(rr[0]); continue
            # the invariants were written for other loops: a failed proof says nothing then, so only
            # the concrete checks decide, on more inputs
            if r.get('loops_rewritten') and time.time() - t0 < 600:
                if not more:
                    more.append(1)
                    oj = os.path.join(tmp, 'more.json')
                    try:
                        subprocess.run([PY, '-m', 'xcheck.run', prop, '--tier', tier, '--seed', str(seed + 7919), '--json', oj, '--budget', '150'], env=dict(ENV, TMPDIR=tmp), cwd=tmp, capture_output=True, timeout=200)
                    except subprocess.TimeoutExpired: pass
                    new = load(oj, dict(failures=[]))
                    x['evaluations'] += new.get('evaluations', 0)
                    report_x(new['failures'])
                    if violations: continue
                r.update(status='unsupported', discharged=0, obligations=0, z3=0, cvc5=0, reason='its loops were rewritten, the invariants do not apply to them')
                continue
            violations.append((f"{r['id']}: {f['label']}", rep, ' no-failing-input-found'))
    # evidence
    trusted = list(TRUSTED)
    for r in proof:
        for t in r.get('assumed', []): trusted.append(t)
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2), violations=len(violations),
              coverage=dict(
                  obligations=sum(r['obligations'] for r in proof if r['status'] in ('proved', 'failed')),
                  discharged=sum(r['discharged'] for r in proof),
                  checker_cmd=f'PYTHONPATH=/verif {PY} -m pyvc.verify --prop {prop}',
                  trusted_base=trusted,
                  by_backend=dict(z3=sum(r['z3'] for r in proof), cvc5=sum(r['cvc5'] for r in proof)),
                  solver_time_s=round(sum(r['solver_time'] for r in proof), 2),
                  functions_under_contract=[dict(function='pdf2docx.' + r['target'], contract=r['name'], status=r['status'], obligations=r['obligations'], discharged=r['discharged'],
                                                 paths=r['paths'], solver_s=round(r['solver_time'], 2), labels=r.get('labels', [])[:40], assumes=r.get('assumed', [])) for r in proof if r['status'] in ('proved', 'failed')],
                  bounded_stand_ins=[dict(function='pdf2docx.' + r['target'], contract=r['name'], reason=r['reason'][:300]) for r in proof if r['status'] not in ('proved', 'failed')],
                  bounded_contract_runs=[dict(contract=r['id'], accepted=r.get('ok'), distinct=r.get('distinct'), rejected=r.get('rejected'), status=r['status']) for r in conc],
                  bounded_cross_check=dict(evaluations=x['evaluations'], distinct_nontrivial=x['distinct'], rule=x['rule'], samples=x['samples'][:5], parts=x.get('parts', {})),
              ),
              assumptions=sorted({t for r in proof for t in r.get('assumed', [])}))
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1, default=str)
    for k, d in dict.fromkeys(seen_known): print(f'KNOWN-FINDING: property={prop} {d}')
    n = len([r for r in proof if r['status'] == 'proved'])
    print(f"{prop}: {n}/{len(proof)} contracts proved, {ev['coverage']['discharged']}/{ev['coverage']['obligations']} obligations; "
          f"bounded: {sum(r.get('ok', 0) for r in conc)} contract runs, {x['evaluations']} cross-checks; {ev['wall_s']}s")
    for r in proof:
        if r['status'] not in ('proved', 'failed') and r['status'] != 'bounded':
            print(f"  note: {r['id']} is outside the verified subset now, only the bounded check covers it: {r['reason'][:200]}")
    for r in conc:
        if r['status'] == 'error': print(f"  note: contract harness {r['id']} could not run: {r['info']['label'] if r['info'] else ''}")
    for k, (label, rep, suffix) in enumerate(violations[:5]):
        p = os.path.join(replays, f'{prop}-{k}.json')
        json.dump({**rep, **dict(property=prop, violated=label, seed=seed, tier=tier)}, open(p, 'w'), indent=1, default=str)
        print(f'  violated: {label}')
        if k == 0: line = f'VIOLATION property={prop} replay={p}{suffix}'
    if violations:
        print(line)
        return 1
    return 0


if __name__ == '__main__':
    r = main()
    sys.stdout.flush()
    os._exit(r)
