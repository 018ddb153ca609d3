#!/usr/bin/env python3
'''Mechanical edits of every function of the package: tools/automut.py OUT [FILE-SUBSTRING].  Keeps those that pass the
repository's tests (8 at a time, in scratch copies) and runs on each the checks that look at that file, until one alarms.
Prints the edits that no check reports: equivalent edits, or misses to look at by hand.'''
import ast
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import LOOKS, V

CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
       ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '//'}
NAMES = {'append_first': 'append_last', 'append_last': 'append_first', 'left_multiply': 'right_multiply',
         'right_multiply': 'left_multiply', 'remove_first': 'remove_last', 'remove_last': 'remove_first', 'min': 'max',
         'max': 'min', 'sin': 'cos', 'cos': 'sin', 'ones': 'zeros', 'append': 'extend'}


def seg(src, n):
    return ast.get_source_segment(src, n)


def edits(src):
    '''(start, end, new text, label)'''
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for ln in lines:
        off.append(off[-1] + len(ln.encode()) + 1)

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    for f in ast.walk(tree):
        for ch in ast.iter_child_nodes(f):
            ch.parent = f
    docs = {n.body[0] for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and
            isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno'):
            continue
        p = getattr(n, 'parent', None)
        q = p
        while q is not None and not isinstance(q, (ast.FunctionDef, ast.ClassDef)):
            q = getattr(q, 'parent', None)
        if n in docs or p in docs:
            continue
        where = f'{n.lineno} {getattr(q, "name", "")}'

        def out(new, what, node=n):
            a, b = span(node)
            return a, b, new, f'{where}: {what}'
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            new = f'({seg(src, n.left)}) {CMP[type(n.ops[0])]} ({seg(src, n.comparators[0])})'
            yield out(new, f'{seg(src, n)} -> {new}')
        if isinstance(n, ast.BinOp):
            lft, rgt = seg(src, n.left), seg(src, n.right)
            if type(n.op) in BIN:
                new = f'(({lft}) {BIN[type(n.op)]} ({rgt}))'
                yield out(new, f'{seg(src, n)} -> {new}')
            if isinstance(n.op, ast.MatMult):
                new = f'(({rgt}) @ ({lft}))'
                yield out(new, f'{seg(src, n)} -> {new}')
        if isinstance(n, ast.BoolOp):
            for i in range(len(n.values)):
                new = '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(
                    f'({seg(src, v)})' for j, v in enumerate(n.values) if j != i) + ')'
                yield out(new, f'{seg(src, n)} -> {new}')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield out(f'({seg(src, n.operand)})', f'{seg(src, n)} -> without the sign')
        if isinstance(n, ast.Constant) and not isinstance(p, ast.JoinedStr):
            v = n.value
            if isinstance(v, bool):
                yield out(str(not v), f'{v} -> {not v} in {seg(src, p)}')
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    yield out(f'({w})', f'{v} -> {w} in {seg(src, p)}')
            elif isinstance(v, float):
                for w in (v * 2, v / 2, 0.0 if v else 1.0):
                    yield out(f'({w})', f'{v} -> {w} in {seg(src, p)}')
            elif isinstance(v, complex):
                yield out('(-' + seg(src, n) + ')', f'{v} negated in {seg(src, p)}')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            t = n.test
            yield out(f'(not ({seg(src, t)}))', f'if {seg(src, t)} negated', t)
        if isinstance(n, ast.Assert):
            yield out('pass', f'without {seg(src, n)}')
        if isinstance(n, ast.AugAssign) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield out('pass', f'without {seg(src, n)}')
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            yield out('pass', f'without {seg(src, n)}')
        if isinstance(n, ast.If) and not n.orelse:
            yield out('pass', f'without if {seg(src, n.test)}')
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in NAMES:
                o = seg(src, n.func.value)
                new = f'{o}.{NAMES[n.func.attr]}'
                yield out(new, f'{seg(src, n.func)} -> {new}', n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'conj', 'inverse', 'transpose') and not n.args:
                yield out(seg(src, n.func.value), f'{seg(src, n)} -> {seg(src, n.func.value)}')
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args[:2]
                x, y = span(a)[0], span(b)[1]
                yield x, y, f'{seg(src, b)}, {seg(src, a)}', f'{where}: {seg(src, n)} arguments swapped'
            if n.keywords:
                for k in n.keywords:
                    new = f'{seg(src, n.func)}(' + ', '.join(
                        [seg(src, a) for a in n.args] + [f'{w.arg}={seg(src, w.value)}' for w in n.keywords
                                                        if w is not k and w.arg]) + ')'
                    yield out(new, f'{seg(src, n)} without {k.arg}')
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            yield out(seg(src, n.value), f'{seg(src, n)} without .T')
        if isinstance(n, (ast.Break, ast.Continue)):
            yield out('pass', 'without ' + seg(src, n))
        if isinstance(n, ast.For):
            yield out(f'list({seg(src, n.iter)})[1:]', f'{seg(src, n.iter)} without its first', n.iter)


def tests(d):
    e = dict(os.environ, PYTHONPATH='/opt/testsupport', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    try:
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', 'tests', '-p', 'seed_rng', '-p',
                            'no:cacheprovider', '--timeout=60'], cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


def job(a):
    f, i, (x, y, new, label) = a
    d = tempfile.mkdtemp(prefix='am')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        p = f'{d}/{f}'
        b = open(p, 'rb').read()
        b = b[:x] + new.encode() + b[y:]
        try:
            compile(b, p, 'exec')
        except SyntaxError:
            return None
        open(p, 'wb').write(b)
        if not tests(d):
            return None
        rel = f.split('stoqcompiler/', 1)[1]
        w = LOOKS.get(rel)
        ids = (w or 'P01 P02 P03 P04 P05 P06 P10 P11 P12 P13 P17 P21 P26').split()
        und = []
        for pid in ids:
            try:
                r = subprocess.run([f'{V}/check', pid, '--root', d, '--no-evidence'], stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                und.append(pid + ':timeout')
                continue
            if r.returncode == 1:
                return f, label, 'caught ' + pid
            if 'undecided:' in r.stdout:
                und.append(pid + ':' + str(sum('undecided:' in t for t in r.stdout.splitlines())))
        return f, label, 'MISSED ' + ' '.join(und)
    finally:
        shutil.rmtree(d)


def main():
    os.environ['SA_SERIAL'] = '1'
    out = open(sys.argv[1], 'a')
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    todo = []
    for r, _, fs in os.walk('/repo/stoqcompiler'):
        for f in sorted(fs):
            p = os.path.join(r, f)
            if f.endswith('.py') and pat in p:
                src = open(p).read()
                for i, e in enumerate(edits(src)):
                    todo.append((os.path.relpath(p, '/repo'), i, e))
    print(len(todo), file=out, flush=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        for r in ex.map(job, todo):
            if r:
                print(*r, sep=' | ', file=out, flush=True)
    print('done', file=out, flush=True)


main()
