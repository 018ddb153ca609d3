#!/usr/bin/env python3
'''Runs the checks on small edits of a scratch copy.  tools/mutants.py [-a] [Pxx...]: tools/mutants/Pxx.py holds
M = [(label, file, [(old, new)...], 'bad' | 'ok')]; with -a every edit runs against every check (only 'ok' edits must be
quiet for all).  Prints the edits whose outcome is not the expected one, and a summary.'''
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prepare(m):
    label, f, eds, exp = m
    d = tempfile.mkdtemp(prefix='mut')
    shutil.copytree('/repo/stoqcompiler', f'{d}/stoqcompiler', ignore=shutil.ignore_patterns('__pycache__'))
    if isinstance(eds, tuple):
        eds = [eds]
    for e in eds:
        ff = f
        if len(e) == 3:
            ff, *e = e
        p = f'{d}/stoqcompiler/{ff}'
        s = open(p).read()
        if s.count(e[0]) < 1:
            shutil.rmtree(d)
            return None, f'{label}: no match of {e[0]!r}'
        s = s.replace(e[0], e[1])
        compile(s, p, 'exec')
        open(p, 'w').write(s)
    return d, None


def job(a):
    pid, m = a
    d, err = prepare(m)
    if err:
        return pid, m, 'ERR', err
    try:
        r = subprocess.run([f'{V}/check', pid, '--root', d, '--no-evidence'], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return pid, m, 'TIMEOUT', ''
    finally:
        shutil.rmtree(d)
    bad = [x.strip()[:230] for x in r.stdout.splitlines() if 'refuted:' in x]
    unk = [x.strip()[:330] for x in r.stdout.splitlines() if 'undecided:' in x]
    return pid, m, {0: 'quiet', 1: 'ALARM'}.get(r.returncode, f'rc{r.returncode}'), (bad + unk)


# the checks that look at the code of a file (the others see it through contracts only)
LOOKS = {
    'unitary/unitary.py': None,
    'unitary/unitary_sequence.py': 'P07 P08 P09 P10 P11 P12 P13 P21 P26',
    'unitary/unitary_sequence_entry.py': 'P06 P09 P11 P12 P13 P21 P26 P10',
    'compiler/compiler.py': 'P11 P14 P15 P16 P17 P18 P19 P20 P21 P25 P26',
    'hamiltonian/hamiltonian.py': 'P11 P21 P22 P23 P24 P26',
    'hamiltonian/hamiltonian_term.py': 'P11 P21 P22 P23 P24 P26',
    'verification/verification.py': 'P11 P19 P21 P25 P26',
}
REST = 'P01 P02 P04 P05 P11 P12 P13 P17 P21 P26'


def looks(m):
    f = m[1]
    w = LOOKS.get(f, REST)
    if w is None:
        w = REST + ' P03 P06 P09 P10 P14 P15' if any(x in m[0] for x in ('init', 'close', 'distance', 'inverse', 'identity')) \
            else 'P03 P06 P11 P12 P13 P21 P26'
    return w.split()


def main():
    args = sys.argv[1:]
    every = '-a' in args
    verbose = '-v' in args
    only = [a[2:] for a in args if a.startswith('-k')]
    args = [a for a in args if not a.startswith('-')]
    allp = [c['property'] for c in json.load(open(f'{V}/MANIFEST.json'))['checks']]
    ids = args or sorted(f[:-3] for f in os.listdir(f'{V}/tools/mutants') if f.endswith('.py') and f[0] != '_')
    jobs = []
    for i in ids:
        for m in runpy.run_path(f'{V}/tools/mutants/{i}.py')['M']:
            if only and not any(k in m[0] for k in only):
                continue
            for p in (allp if every else looks(m) if i == 'common' else [m[0].split()[0]] if i == 'bugs' else [i]):
                jobs.append((p, m))
    n = {}
    with ThreadPoolExecutor(6) as ex:
        for pid, m, out, info in ex.map(job, jobs):
            want = {'bad': 'ALARM', 'ok': 'quiet'}[m[3]]
            good = out == want or (m[3] == 'bad' and every)
            und = out == 'quiet' and info
            n[(m[3], out)] = n.get((m[3], out), 0) + 1
            if not good or und or verbose:
                print(f'{"" if good else "!! "}{pid} {m[0]} [{m[3]}]: {out}{" (undecided)" if und else ""}', flush=True)
                for x in (info if isinstance(info, list) else [info])[:3]:
                    print('      ', x)
    print(n)


if __name__ == '__main__':
    main()
