#!/usr/bin/env python3
'''Behaviour-preserving edits, mechanically: tools/autoref.py OUT [-n COUNT] [-p PROBABILITY] [-s SEED] [-f FILE-SUBSTRING] [IDS...]
Every round rewrites the package with random edits that keep the behaviour (conditions turned round, temporaries named or
inlined, helpers extracted, comprehensions written as loops, ...), keeps the trees that pass the repository's tests, and
runs the checks.  Prints refuted obligations (false alarms) and undecided ones.'''
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def nm(x, ctx=None):
    return ast.Name(x, ctx or ast.Load())


def pure(e):
    '''reads names, attributes and constants only, no calls'''
    return all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp,
                              ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context)) for n in ast.walk(e))


def negated(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    if isinstance(c, ast.Compare) and len(c.ops) == 1 and type(c.ops[0]) in NEG:
        return ast.Compare(c.left, [NEG[type(c.ops[0])]()], c.comparators)
    return ast.UnaryOp(ast.Not(), c)


def boolean(c):
    return isinstance(c, ast.Compare) or isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not) or (
        isinstance(c, ast.BoolOp) and all(boolean(v) for v in c.values))


class Expr(ast.NodeTransformer):
    '''edits inside expressions'''

    def __init__(self, go):
        self.go = go

    def visit_JoinedStr(self, n):
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP and pure(n) and self.go('flip'):
            return ast.Compare(n.comparators[0], [FLIP[type(n.ops[0])]()], [n.left])
        if len(n.ops) == 1 and type(n.ops[0]) in NEG and self.go('negate'):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [NEG[type(n.ops[0])]()], n.comparators))
        if len(n.ops) == 2 and pure(n) and self.go('chain'):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
                                          ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.BoolOp) and self.go('demorgan'):
            op = ast.Or() if isinstance(n.operand.op, ast.And) else ast.And()
            return ast.BoolOp(op, [negated(v) for v in n.operand.values])
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.go('ifexp'):
            return ast.IfExp(negated(n.test), n.orelse, n.body)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'range' and len(n.args) == 1 and self.go('range'):
            return ast.Call(n.func, [ast.Constant(0), n.args[0]], [])
        if isinstance(n.func, ast.Name) and n.func.id == 'any' and len(n.args) == 1 and isinstance(
                n.args[0], ast.ListComp) and boolean(n.args[0].elt) and self.go('any'):
            c = copy.deepcopy(n.args[0])
            c.elt = negated(c.elt)
            return ast.UnaryOp(ast.Not(), ast.Call(nm('all'), [c], []))
        if isinstance(n.func, ast.Name) and n.func.id in ('all', 'any') and len(n.args) == 1 and isinstance(
                n.args[0], ast.ListComp) and self.go('generator'):
            return ast.Call(n.func, [ast.GeneratorExp(n.args[0].elt, n.args[0].generators)], [])
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and isinstance(
                n.args[0], ast.GeneratorExp) and self.go('joinlist'):
            return ast.Call(n.func, [ast.ListComp(n.args[0].elt, n.args[0].generators)], [])
        if isinstance(n.func, ast.Name) and n.func.id == 'list' and len(n.args) == 1 and isinstance(
                n.args[0], ast.Call) and self.go('list'):
            return ast.ListComp(nm('_e'), [ast.comprehension(nm('_e', ast.Store()), n.args[0], [], 0)])
        if isinstance(n.func, ast.Name) and n.func.id == 'dict' and len(n.args) == 0 and not n.keywords and self.go('dict'):
            return ast.Dict([], [])
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.MatMult) and self.go('matmul'):
            return ast.Call(ast.Attribute(nm('np'), 'matmul', ast.Load()), [n.left, n.right], []) if False else n
        if isinstance(n.op, ast.Mult) and pure(n) and self.go('commute'):
            return ast.BinOp(n.right, ast.Mult(), n.left)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        return n

    def visit_Lambda(self, n):
        return n


class Body:
    '''edits of statement lists'''

    def __init__(self, rng, p, log, only=None):
        self.rng, self.p, self.log, self.k, self.only = rng, p, log, 0, only
        self.helpers = []

    def go(self, what):
        yes = self.rng.random() < self.p and (self.only is None or what in self.only)
        if yes:
            self.log.append((self.where, what))
        return yes

    def fresh(self, base='tmp'):
        self.k += 1
        return f'{base}_{self.k}'

    def function(self, f, cls):
        self.where = f'{cls.name if cls else ""}.{f.name}'
        self.cls, self.f = cls, f
        self.nested = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for b in f.body for n in ast.walk(b))
        self.static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list)
        self.genfun = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))
        doc = []
        body = f.body
        if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        if self.go('rename'):
            body = self.rename(f, body)
        f.body = doc + (self.stmts(body, top=True) or [ast.Pass()])

    def rename(self, f, body):
        params = {a.arg for a in f.args.args + f.args.kwonlyargs} | ({f.args.vararg.arg} if f.args.vararg else set())
        stored = {n.id for b in body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        free = {n for b in body for x in ast.walk(b) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.FunctionDef):
                    free |= {a.arg for a in x.args.args} | {x.name}
                if isinstance(x, ast.Lambda):
                    free |= {a.arg for a in x.args.args}
        m = {s: f'{s}_{self.rng.choice("abc")}x' for s in stored - params - free}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                n.id = m.get(n.id, n.id)
                return n
        return [R().visit(b) for b in body]

    def expr(self, e):
        return Expr(self.go).visit(e)

    def stmts(self, body, top=False, loop=False):
        out = []
        i = 0
        body = list(body)
        while i < len(body):
            s = body[i]
            # if c: return a ; return b  (last two)
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and \
                    i + 1 < len(body) and isinstance(body[-1], (ast.Return, ast.Raise)) and self.go('else'):
                s = ast.If(s.test, s.body, body[i + 1:])
                body = body[:i] + [s]
            elif isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and \
                    i + 1 == len(body) and self.go('unelse'):
                body = body[:i] + [ast.If(s.test, s.body, [])] + s.orelse
                s = body[i]
            # swap two neighbouring simple independent assignments
            if i + 1 < len(body) and self.independent(s, body[i + 1]) and self.go('swap'):
                body[i], body[i + 1] = body[i + 1], s
                s = body[i]
            out += self.stmt(s)
            i += 1
        return out

    def independent(self, a, b):
        def simple(x):
            return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], (ast.Name, ast.Attribute)) \
                and pure(x.value)
        if not (simple(a) and simple(b)):
            return False
        ta, tb = ast.unparse(a.targets[0]), ast.unparse(b.targets[0])
        ra, rb = ({ast.unparse(n) for n in ast.walk(x.value)} for x in (a, b))
        return ta != tb and ta not in rb and tb not in ra and not ta.startswith(tb + '.') and not tb.startswith(ta + '.')

    def stmt(self, s):
        if isinstance(s, ast.If):
            s = ast.If(self.expr(s.test), self.stmts(s.body), self.stmts(s.orelse))
            if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)) and self.go('invert'):
                s = ast.If(negated(s.test), s.orelse, s.body)
            if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse and self.go('nest'):
                inner = s.body
                for v in reversed(s.test.values):
                    inner = [ast.If(v, inner, [])]
                return inner
            if self.go('condname') and not self.k > 40:
                t = self.fresh('cond')
                return [ast.Assign([nm(t, ast.Store())], s.test), ast.If(nm(t), s.body, s.orelse)]
            if len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(
                    s.orelse[0], ast.Assign) and len(s.body[0].targets) == 1 and ast.unparse(s.body[0].targets[0]) == ast.unparse(
                    s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name) and self.go('ternary'):
                return [ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
            if len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and isinstance(
                    s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value and self.go('ternary'):
                return [ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))]
            return [s]
        if isinstance(s, ast.For):
            has = any(isinstance(n, (ast.Break, ast.Continue)) for b in s.body for n in ast.walk(b))
            it = self.expr(s.iter)
            body = self.stmts(s.body, loop=True)
            if isinstance(it, ast.Name) and not s.orelse and self.go('index'):
                k = self.fresh('idx')
                return [ast.For(nm(k, ast.Store()), ast.Call(nm('range'), [ast.Call(nm('len'), [it], [])], []),
                                [ast.Assign([s.target], ast.Subscript(it, nm(k), ast.Load()))] + body, [])]
            if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and len(it.args) in (1, 2) \
                    and not has and isinstance(s.target, ast.Name) and not s.orelse and all(pure(a) for a in it.args) and \
                    not any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in
                            {x.id for a in it.args for x in ast.walk(a) if isinstance(x, ast.Name)} | {s.target.id}
                            for b in body for n in ast.walk(b)) and self.go('while'):
                k = self.fresh('pos')
                lo, hi = (ast.Constant(0), it.args[0]) if len(it.args) == 1 else it.args
                return [ast.Assign([nm(k, ast.Store())], lo),
                        ast.While(ast.Compare(nm(k), [ast.Lt()], [hi]),
                                  [ast.Assign([s.target], nm(k))] + body +
                                  [ast.AugAssign(nm(k, ast.Store()), ast.Add(), ast.Constant(1))], [])]
            if not s.orelse and self.go('itername') and not isinstance(it, ast.Name):
                k = self.fresh('items')
                return [ast.Assign([nm(k, ast.Store())], it), ast.For(s.target, nm(k), body, [])]
            return [ast.For(s.target, it, body, s.orelse)]
        if isinstance(s, ast.While):
            t = self.expr(s.test)
            body = self.stmts(s.body, loop=True)
            if not s.orelse and self.go('whiletrue'):
                return [ast.While(ast.Constant(True), [ast.If(negated(t), [ast.Break()], [])] + body, [])]
            return [ast.While(t, body, s.orelse)]
        if isinstance(s, ast.Assert):
            t = self.expr(s.test)
            if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) and self.go('splitassert'):
                return [ast.Assert(v, s.msg) for v in t.values]
            if self.go('raise'):
                return [ast.If(negated(t), [ast.Raise(ast.Call(nm('AssertionError'), [s.msg] if s.msg else [], []))], [])]
            return [ast.Assert(t, s.msg)]
        if isinstance(s, ast.AugAssign):
            if isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.BinOp, ast.Call, ast.Name)) and \
                    not isinstance(s.value, ast.List) and s.target.id in ('next_index', 'step_count', 'total_time') and \
                    self.go('augment'):
                return [ast.Assign([nm(s.target.id, ast.Store())], ast.BinOp(nm(s.target.id), s.op, self.expr(s.value)))]
            return [s]
        if isinstance(s, ast.Assign):
            v = self.expr(s.value)
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and isinstance(s.targets[0], ast.Name) and \
                    not self.uses(v, s.targets[0].id) and self.go('unroll'):
                return self.loop(s.targets[0].id, v)
            if isinstance(v, ast.IfExp) and isinstance(s.targets[0], ast.Name) and self.go('unternary'):
                return [ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)])]
            if isinstance(v, ast.Call) and self.go('args'):
                return self.named(v) + [ast.Assign(s.targets, v)]
            if isinstance(v, ast.Call) and not self.nested and self.go('helper'):
                return [ast.Assign(s.targets, self.helper(v))]
            return [ast.Assign(s.targets, v)]
        if isinstance(s, ast.Return) and s.value is not None:
            v = self.expr(s.value)
            if isinstance(v, ast.IfExp) and self.go('unternary'):
                return [ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])]
            if isinstance(v, ast.ListComp) and len(v.generators) == 1 and self.go('unroll'):
                t = self.fresh('items')
                return self.loop(t, v) + [ast.Return(nm(t))]
            if isinstance(v, ast.Call) and self.go('args'):
                return self.named(v) + [ast.Return(v)]
            if self.go('result'):
                t = self.fresh('result')
                return [ast.Assign([nm(t, ast.Store())], v), ast.Return(nm(t))]
            if not self.nested and not isinstance(v, (ast.Name, ast.Constant)) and self.go('helper'):
                return [ast.Return(self.helper(v))]
            return [ast.Return(v)]
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'append' and len(v.args) == 1 and \
                    self.go('extend'):
                return [ast.Expr(ast.Call(ast.Attribute(v.func.value, 'extend', ast.Load()), [ast.List(v.args, ast.Load())], []))]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'extend' and len(v.args) == 1 and \
                    self.go('each'):
                t = self.fresh('item')
                return [ast.For(nm(t, ast.Store()), v.args[0], [ast.Expr(ast.Call(
                    ast.Attribute(v.func.value, 'append', ast.Load()), [nm(t)], []))], [])]
            if isinstance(v, ast.ListComp) and self.go('eachstmt'):
                g = v.generators[0]
                if len(v.generators) == 1 and not g.ifs:
                    return [ast.For(g.target, g.iter, [ast.Expr(v.elt)], [])]
            if isinstance(v, ast.Call) and self.go('args'):
                return self.named(v) + [ast.Expr(v)]
            return [ast.Expr(self.expr(v))] if not isinstance(v, ast.Constant) else [s]
        return [s]

    def uses(self, e, name):
        return any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(e))

    def loop(self, name, v):
        g = v.generators[0]
        inner = [ast.Expr(ast.Call(ast.Attribute(nm(name), 'append', ast.Load()), [v.elt], []))]
        for c in reversed(g.ifs):
            inner = [ast.If(c, inner, [])]
        # a fresh loop variable: comprehension variables do not leak
        m = {n.id: self.fresh(n.id) for n in ast.walk(g.target) if isinstance(n, ast.Name)}

        class R(ast.NodeTransformer):
            def visit_Name(self, n):
                return ast.Name(m.get(n.id, n.id), n.ctx)
        tgt = R().visit(copy.deepcopy(g.target))
        inner = [R().visit(copy.deepcopy(x)) for x in inner]
        return [ast.Assign([nm(name, ast.Store())], ast.List([], ast.Load())), ast.For(tgt, g.iter, inner, [])]

    def named(self, v):
        '''arguments evaluated into names first'''
        if not (isinstance(v.func, ast.Name) or isinstance(v.func, ast.Attribute) and pure(v.func)):
            return []
        out = []
        for i, a in enumerate(v.args):
            if isinstance(a, ast.Starred):
                return []
        for i, a in enumerate(v.args):
            if isinstance(a, (ast.Constant, ast.Name, ast.GeneratorExp)):
                continue
            t = self.fresh('arg')
            out.append(ast.Assign([nm(t, ast.Store())], a))
            v.args[i] = nm(t)
        for k in v.keywords:
            if k.arg and not isinstance(k.value, (ast.Constant, ast.Name, ast.GeneratorExp)):
                t = self.fresh('arg')
                out.append(ast.Assign([nm(t, ast.Store())], k.value))
                k.value = nm(t)
        return out

    def helper(self, v):
        '''the expression as a call of a new method or function'''
        names, bound = [], set()
        for n in ast.walk(v):
            if isinstance(n, ast.comprehension):
                bound |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        local = {a.arg for a in self.f.args.args + self.f.args.kwonlyargs} | (
            {self.f.args.vararg.arg} if self.f.args.vararg else set()) | {
            n.id for n in ast.walk(self.f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | self.extra()
        for n in ast.walk(v):
            if isinstance(n, ast.Name) and n.id in local and n.id not in bound and n.id not in names:
                names.append(n.id)
        h = '_' + self.fresh('helper')
        meth = self.cls is not None and 'self' in names
        args = (['self'] if meth else []) + [x for x in names if x != 'self']
        f = ast.FunctionDef(h, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), [ast.Return(v)], [])
        if meth:
            self.cls.body.append(f)
            return ast.Call(ast.Attribute(nm('self'), h, ast.Load()), [nm(x) for x in args[1:]], [])
        self.helpers.append(f)
        return ast.Call(nm(h), [nm(x) for x in args], [])

    def extra(self):
        return {f'{b}_{i}' for b in ('tmp', 'cond', 'idx', 'pos', 'items', 'arg', 'result', 'item') for i in range(1, self.k + 1)} | {
            f'{x.id}_{i}' for x in ast.walk(self.f) if isinstance(x, ast.Name) for i in range(1, self.k + 1)}


def refactor(src, rng, p, only=None):
    t = ast.parse(src)
    log = []
    b = Body(rng, p, log, only)
    for n in list(t.body):
        if isinstance(n, ast.ClassDef):
            for f in list(n.body):
                if isinstance(f, ast.FunctionDef) and not f.name.startswith('_helper'):
                    b.function(f, n)
        elif isinstance(n, ast.FunctionDef):
            b.function(n, None)
    t.body += b.helpers
    ast.fix_missing_locations(t)
    return ast.unparse(t) + '\n', log


def tests(root):
    env = dict(os.environ, PYTHONPATH=f'{root}:/opt/testsupport', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
               OMP_NUM_THREADS='1', PYTHONHASHSEED='0')
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', 'tests', '-p', 'seed_rng', '-p', 'no:cacheprovider', '-x'],
                       cwd=root, env=env, capture_output=True, text=True)
    return r.returncode == 0, r.stdout[-1500:]


def main():
    a = sys.argv[1:]
    out = a.pop(0)
    opt = {'-n': '8', '-p': '0.25', '-s': '1', '-f': '', '-o': ''}
    while a and a[0] in opt:
        k = a.pop(0)
        opt[k] = a.pop(0)
    ids = a or [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
    only = opt['-o'].split(',') if opt['-o'] else None

    def run(job):
        i, root = job
        r = subprocess.run([V + '/check', i, '--root', root, '--no-evidence'], capture_output=True, text=True, timeout=900)
        return i, r.returncode, r.stdout + r.stderr
    with open(out, 'a') as log:
        for k in range(int(opt['-n'])):
            seed = int(opt['-s']) + k
            rng = random.Random(seed)
            root = f'/tmp/ar_{os.getpid()}_{seed}'
            shutil.copytree('/repo', root, symlinks=True)
            what = []
            for d, _, fs in os.walk(root + '/stoqcompiler'):
                for f in sorted(fs):
                    if f.endswith('.py') and f != '__init__.py' and opt['-f'] in d + '/' + f:
                        src = open(d + '/' + f).read()
                        new, lg = refactor(src, rng, float(opt['-p']), only)
                        open(d + '/' + f, 'w').write(new)
                        what += lg
            ok, txt = tests(root)
            print(f'== seed {seed}: {len(what)} edits, tests {"pass" if ok else "FAIL"}', file=log, flush=True)
            if not ok:
                print(txt, file=log, flush=True)
                continue
            with ThreadPoolExecutor(4) as ex:
                for i, rc, o in ex.map(run, [(i, root) for i in ids]):
                    und = [x for x in o.splitlines() if 'undecided:' in x]
                    ref = [x for x in o.splitlines() if 'refuted:' in x]
                    ob = [x for x in o.splitlines() if 'obligations' in x]
                    if rc or und or ref or ' 0 undecided' not in ''.join(ob):
                        print(f'{i} rc={rc} {ob[0] if ob else o[-300:]}', file=log)
                        for x in ref[:4] + und[:3]:
                            print('   ', x.strip()[:400], file=log, flush=True)
            if os.environ.get('KEEP') != '1':
                shutil.rmtree(root)
            print(f'-- seed {seed} done', file=log, flush=True)


if __name__ == '__main__':
    main()
