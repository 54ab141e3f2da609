#!/usr/bin/env python3
"""Plants a bug in a scratch copy of /repo, confirms it and keeps it under /verif/seeded: seed.py SPEC.py
SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source run with cwd=/repo)."""
import sys, os, subprocess, json, shutil, runpy, tempfile
PY = '/opt/venv/bin/python'
HEAD = """import sys, os
sys.path[:0] = [os.getcwd(), '/opt/vp/compat']
import oldnames
"""
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **k)
def main(spec, check=True, tests=True):
    s = runpy.run_path(spec)
    t = tempfile.mkdtemp(prefix='seed-')
    w = os.path.join(t, 'repo')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w])
        sh('git checkout -- . && git clean -fdq', w)
        for f, a, b in s['EDITS']:
            p = os.path.join(w, f); src = open(p).read()
            if src.count(a) != 1: sys.exit(f'{s["ID"]}: {f}: {src.count(a)} matches of {a!r}')
            open(p, 'w').write(src.replace(a, b))
        d = os.path.join('/verif/seeded', s['ID'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', w).stdout)
        open(os.path.join(d, 'demo.py'), 'w').write(HEAD + s['DEMO'].strip() + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['PROP'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh(f'PYTHONDONTWRITEBYTECODE=1 bash {d}/demo.sh', '/repo', timeout=300); r1 = sh(f'PYTHONDONTWRITEBYTECODE=1 bash {d}/demo.sh', w, timeout=300)
        print(s['ID'], 'demo unchanged:', r0.returncode, 'patched:', r1.returncode, (r1.stdout + r1.stderr).strip().splitlines()[-1:] )
        if r0.returncode: print(r0.stdout[-500:], r0.stderr[-1500:])
        ok = r0.returncode == 0 and r1.returncode != 0
        if ok and tests:
            # the tests import pdf2docx from /repo: run them there with the patch applied
            try:
                a = sh(f'git apply {d}/patch.diff', '/repo'); assert a.returncode == 0, a.stderr
                sh(f'bash /opt/vp/test.sh {t}/o.json', '/repo')
                o = json.load(open(f'{t}/o.json')); b = json.load(open('/opt/vp/BASELINE.json'))
                lost = set(b['stable']) - set(o['passed'])
                print(s['ID'], 'tests lost:', lost); ok = not lost
                if check and ok:
                    r = sh(f'python3 check.py {s["PROP"]}', '/verif')
                    print(s['ID'], 'check:', r.returncode, (r.stdout).strip()[-700:])
            finally: sh('git checkout -- .', '/repo')
        if not ok: print('NOT KEPT'); shutil.rmtree(d)
    finally: shutil.rmtree(t)
for f in sys.argv[1:]: main(f)
