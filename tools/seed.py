#!/usr/bin/env python3
'''Builds and confirms planted bugs.  tools/seed.py [id...] reads tools/seeds/<id>.py:
  PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO = python source
and writes seeded/<id>/ after confirming in a scratch copy: applies, builds, tests pass, demo passes without and fails with it.'''
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = None


def run(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
    env.update(kw)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)


def tests(root):
    work = tempfile.mkdtemp()
    r = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'tests', '-p', 'seed_rng', '-p', 'no:cacheprovider', '--timeout=300'],
            root, PYTHONPATH='/opt/testsupport', PYTHONHASHSEED='0', PYTHONPYCACHEPREFIX=work)
    shutil.rmtree(work)
    return r.returncode == 0, r.stdout[-600:]


def one(i):
    d = runpy.run_path(f'{V}/tools/seeds/{i}.py')
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        root = f'{tmp}/repo'
        subprocess.run(['git', 'clone', '-q', '/repo', root], check=True)
        out = f'{tmp}/out'
        os.makedirs(out)
        open(f'{out}/demo.py', 'w').write(d['DEMO'].strip() + '\n')
        open(f'{out}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"\n'
                                          'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{out}/demo.sh', 0o755)
        r = run(['bash', f'{out}/demo.sh'], root)
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stdout[-500:]
        for f, old, new in d['EDITS']:
            p = f'{root}/stoqcompiler/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{f}: {s.count(old)} matches of {old!r}'
            open(p, 'w').write(s.replace(old, new))
        diff = run(['git', 'diff'], root).stdout
        open(f'{out}/patch.diff', 'w').write(diff)
        r = run(['bash', f'{out}/demo.sh'], root)
        if r.returncode == 0:
            return 'demo passes with the bug'
        ok, t = tests(root)
        if not ok:
            return 'tests fail: ' + t
        json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']},
                  open(f'{out}/meta.json', 'w'), indent=1)
        dst = f'{V}/seeded/{i}'
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        r = run([f'{V}/check', d['PROP'], '--root', root, '--no-evidence'], V)
        bad = [x.strip()[:160] for x in r.stdout.splitlines() if 'refuted:' in x]
        return f'confirmed; {d["PROP"]} {"CAUGHT" if r.returncode == 1 else "missed rc=%d" % r.returncode} {bad[:1]}'
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(f'{V}/tools/seeds') if f.endswith('.py'))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(one, ids)):
            print(i, r, flush=True)
