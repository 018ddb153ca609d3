'''
Abstract evaluation of Python statements and expressions.
'''
import ast

from . import terms as tm
from .terms import (T, mk, add, sub, mul, neg, div, power, const_of, cmp_le, cmp_lt, cmp_eq, lnot, land, lor,
                    is_number, is_num_const, subst, symbols, cat)
from .dom import *

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
          ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


class Ev_:
    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.node = s
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        v = s.value
        if isinstance(v, ast.GeneratorExp):        # made and dropped: only its first iterable is evaluated
            self.ev_expr(v.generators[0].iter, env)
            return
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('map', 'filter') and not v.keywords:
            f = self.ev_expr(v.func, env)
            if isinstance(f, Ext) and f.name == "builtins." + v.func.id:
                for a in v.args:
                    self.ev_expr(a.value if isinstance(a, ast.Starred) else a, env)
                return
        self.ev_expr(v, env)

    def s_Pass(self, s, env):
        pass

    def s_Global(self, s, env):
        e = self.st.heap[env]
        e.globals = tuple(e.globals) + tuple(s.names)

    def s_Nonlocal(self, s, env):
        e = self.st.heap[env]
        e.nonlocals = tuple(e.nonlocals) + tuple(s.names)

    def s_Import(self, s, env):
        for a in s.names:
            top = a.name if a.asname else a.name.split('.')[0]
            v = ModV(top) if top in self.P.trees else Ext(top)
            self.setname(a.asname or top, v, env)

    def s_ImportFrom(self, s, env):
        mod = self.resolve_import(None, s.level, s.module or '')
        for a in s.names:
            if a.name == '*':
                if mod in self.P.trees:
                    e = self.load(mod)
                    for k, v in list(self.st.heap[e].v.items()):
                        if not k.startswith('_'):
                            self.setname(k, v, env)
                    continue
                raise Unsupported('import *')
            if mod in self.P.trees or mod + '.' + a.name in self.P.trees:
                if mod in self.P.trees:
                    v = Lazy(mod, a.name)
                else:
                    v = ModV(mod + '.' + a.name)
            else:
                v = Ext(mod + '.' + a.name)
            self.setname(a.asname or a.name, v, env)

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, s.name, env)
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        self.setname(s.name, v, env)

    s_AsyncFunctionDef = None

    def decorate(self, d, v, env):
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            old = self.lookup(d.value.id, env)
            return Desc('property', old.func, v)
        name = self.ev_expr(d, env)
        n = name.name if isinstance(name, Ext) else None
        if n in ('builtins.staticmethod', 'builtins.classmethod', 'builtins.property'):
            f = v
            kind = n.split('.')[1]
            if isinstance(f, Func):
                f.kind = kind
            return Desc(kind, f)
        if n in ('functools.cached_property',):
            return Desc('property', v)
        if n and (n.startswith('functools.') or n in ('enum.unique', 'abc.abstractmethod', 'typing.no_type_check',
                                                      'typing.overload', 'typing.final')):
            if 'cache' in n:
                raise Unsupported(f'decorator {n}')
            return v
        if isinstance(d, ast.Call) and isinstance(name, Ext):
            return v
        if isinstance(name, Func):
            return self.call(name, [v], {})
        raise Unsupported('decorator')

    def make_func(self, node, name, env):
        e = self.st.heap[env]
        scope = e
        quals = []
        while scope is not None:
            if scope.role in ('class', 'func'):
                quals.append(scope.func)
                if scope.role == 'func':
                    break
            scope = self.st.heap[scope.parent] if scope.parent is not None else None
        qual = '.'.join([q for q in reversed(quals) if q] + [name])
        a = node.args
        save = self.st.label
        if e.role in ('class', 'module'):
            self.st.label = f'default:{qual}'
        defaults = [self.ev_expr(d, env) for d in a.defaults]
        kwd = {p.arg: self.ev_expr(d, env) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        self.st.label = save
        f = Func(node, name, qual, e.module, env, defaults, kwd,
                 not isinstance(node, ast.Lambda) and has_yield(node))
        if e.role in ('class', 'module'):
            self.funcs[(e.module, qual)] = f
        return f

    def s_ClassDef(self, s, env):
        bases = [self.lazy(self.ev_expr(b, env)) for b in s.bases]
        mod = self.st.heap[env].module
        c = Cls(s.name, mod, s, bases)
        ce = self.alloc(EnvO(env, 'class', mod, s.name))
        c.env = ce
        self.block(s.body, ce)
        for k, v in self.st.heap[ce].v.items():
            c.attrs[k] = v
            f = v.func if isinstance(v, Desc) else v
            if isinstance(f, Func):
                f.cls = c
        if c.is_enum():
            for k, v in list(c.attrs.items()):
                if not k.startswith('_') and not isinstance(v, (Func, Desc)):
                    r = self.ref(Inst(c, {'name': k, 'value': v}))
                    c.attrs[k] = r
                    c.members.append(r)
        for d in s.decorator_list:
            self.ev_expr(d, env)
        if mod:
            self.classes[s.name] = c
        self.setname(s.name, c, env)

    def s_Return(self, s, env):
        raise ReturnX(self.ev_expr(s.value, env) if s.value is not None else None)

    def s_Break(self, s, env):
        raise BreakX

    def s_Continue(self, s, env):
        raise ContinueX

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.heap[env].v.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.mat(self.ev_expr(t.value, env))
                i = self.ev_index(t.slice, env)
                self.lib.delitem(self, o, i)
            else:
                raise Unsupported('del')

    def s_Assign(self, s, env):
        v = self.ev_expr(s.value, env)
        self.node = s
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev_expr(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            r = self.lib.inplace(self, op, cur, lambda: self.ev_expr(s.value, env))
            self.setname(t.id, r, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev_expr(t.value, env)
            cur = self.getattr(o, t.attr)
            r = self.lib.inplace(self, op, cur, lambda: self.ev_expr(s.value, env))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev_expr(t.value, env)
            i = self.ev_index(t.slice, env)
            cur = self.lib.getitem(self, o, i)
            r = self.lib.inplace(self, op, cur, lambda: self.ev_expr(s.value, env))
            self.lib.setitem(self, o, i, r)
        else:
            raise Unsupported('augmented assignment')

    def s_If(self, s, env):
        # a condition under which nothing but a refusal follows is a check, however it is written
        if not s.orelse and self.refusal(s.body):
            return self.check(ast.UnaryOp(ast.Not(), s.test), env, s, s.body[0])
        if s.orelse and self.refusal(s.orelse):
            self.check(s.test, env, s, s.orelse[0])
            return self.block(s.body, env)
        if self.cond(s.test, env):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assert(self, s, env):
        self.check(s.test, env, s)

    def refusal(self, body):
        return len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None

    def check(self, test, env, s, exc=None):
        '''assert: a conjunction is checked conjunct by conjunct.'''
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t = test.operand
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                return self.check(t.operand, env, s, exc)
            if isinstance(t, ast.BoolOp):
                op = ast.And() if isinstance(t.op, ast.Or) else ast.Or()
                return self.check(ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]), env, s, exc)
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            for v in test.values:
                self.check(v, env, s, exc)
            return
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.Or):
            b = self.or_cond(test.values, env)
        else:
            b = self.boolv(self.ev_expr(test, env))
        self.node = s
        if exc is None:
            return self.assert_(b, s)
        if self.entails(b) is False:
            return self.s_Raise(exc, env)
        self.assert_(b, s, self.etype(exc))

    def etype(self, exc):
        '''The name of the exception a raise statement names.'''
        e = exc.exc.func if isinstance(exc.exc, ast.Call) else exc.exc
        return e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', 'Exception')

    def or_cond(self, values, env):
        acc = False
        for i, v in enumerate(values):
            x = self.boolv(self.ev_expr(v, env))
            r = self.entails(x)
            if r is True:
                return True
            if r is False:
                continue
            acc = lor(acc, x)
        return acc

    def assert_(self, b, s, etype='AssertionError'):
        r = self.entails(b)
        if r is True:
            self.ev('assert', cond=b, known=True)
            return
        if r is False:
            raise TargetRaise(etype, self.loc(), '')
        if self.forking():
            if not self.decide(b):
                e = TargetRaise(etype, self.loc(), '')
                e.cond = b
                raise e
            return
        self.ev('assert', cond=b, known=False)
        self.add_fact(b, 'assert')
        self.check_feasible(b)

    def s_Raise(self, s, env):
        et, msg = 'Exception', ''
        if s.exc is not None:
            v = self.ev_expr(s.exc, env)
            if isinstance(v, Ext):
                et = v.name.split('.')[-1]
            elif isinstance(v, Ref) and self.obj(v).kind == 'inst':
                et = getattr(self.obj(v).cls, 'name', 'Exception').split('.')[-1]
            elif isinstance(v, Cls):
                et = v.name
        self.node = s
        raise TargetRaise(et, self.loc(), msg)

    def s_Try(self, s, env):
        caught = None
        try:
            self.st.fork += 1
            try:
                self.block(s.body, env)
            finally:
                self.st.fork -= 1
        except TargetRaise as e:
            for h in s.handlers:
                names = []
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    for t in ts:
                        v = self.ev_expr(t, env)
                        names.append(v.name.split('.')[-1] if isinstance(v, (Ext, Cls)) else '?')
                from .interp import EXC_PARENTS
                if h.type is None or e.etype in names or any(
                        p in names for p in EXC_PARENTS.get(e.etype, ('Exception',))) or 'BaseException' in names:
                    caught = h
                    break
            if caught is None:
                self.block(s.finalbody, env)
                raise
            self.ev('caught', etype=e.etype)
            if caught.name:
                self.setname(caught.name, self.ref(Inst(Ext('builtins.' + e.etype), {})), env)
            self.block(caught.body, env)
        except (ReturnX, BreakX, ContinueX):
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.orelse, env)
        self.block(s.finalbody, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev_expr(i.context_expr, env)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, env)
        self.block(s.body, env)

    def s_For(self, s, env):
        w = self.loops.as_while(self, s) if self.meanings else None
        if w is not None:
            return self.block(w, env)
        it = self.ev_expr(s.iter, env)
        direct = self.over_perm(s, self.lib.iter_order(self, it), env)
        if direct is not None:
            return self.s_For(direct, env)
        ps = self.by_zones(self.lib.iter_order(self, it), s.target, s.body, env)

        def run(v):
            self.node = s
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except ContinueX:
                pass
        try:
            self.loops.iterate(self, ps, run, s)
        except BreakX:
            return
        self.block(s.orelse, env)

    def over_perm(self, s, ps, env):
        '''range(len(X)) over a shuffled X of which the body only reads X[i]: the same as running over X.'''
        if not (isinstance(s.target, ast.Name) and len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and
                isinstance(ps[0].ps[0], It) and ps[0].ps[0].v is ps[0].k) or s.orelse:
            return None
        i, whole, reads = s.target.id, 0, []
        for b in s.body:
            for y in ast.walk(b):
                if isinstance(y, ast.Name) and y.id == i:
                    whole += 1
                if isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Name) and y.slice.id == i and \
                        isinstance(y.ctx, ast.Load) and isinstance(y.value, ast.Name):
                    reads.append(y.value.id)
        if not reads or whole != len(reads) or len(set(reads)) != 1:
            return None
        x = reads[0]
        uses = [y for b in s.body for y in ast.walk(b) if isinstance(y, ast.Name) and y.id == x]
        try:
            o = self.o(self.lookup(x, env), 'list')
        except TargetRaise:
            return None
        if len(uses) != len(reads) or o is None or not any(isinstance(q, Perm) for q in o.ps) or \
                tm.sub(self.canon(self.seqlen(o.ps)), self.canon(ps[0].n)) != 0:
            return None
        memo = self.__dict__.setdefault('perm_loops', {})
        if s not in memo:
            class R(ast.NodeTransformer):
                def visit_Subscript(self, y):
                    if isinstance(y.slice, ast.Name) and y.slice.id == i and isinstance(y.value, ast.Name):
                        return ast.copy_location(ast.Name('$' + i, ast.Load()), y)
                    return self.generic_visit(y)
            import copy
            memo[s] = ast.copy_location(ast.For(ast.copy_location(ast.Name('$' + i, ast.Store()), s.target),
                                                ast.copy_location(ast.Name(x, ast.Load()), s.iter),
                                                [R().visit(copy.deepcopy(b)) for b in s.body], [], None), s)
        return memo[s]

    def by_zones(self, ps, target, body, env):
        '''range(len(X)) where the body reads X[i]: the range is cut where the known parts of X meet.'''
        if not (isinstance(target, ast.Name) and len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and
                isinstance(ps[0].ps[0], It)):
            return ps
        p = ps[0]
        v = p.ps[0].v
        back = v is not p.k and isinstance(v, T) and tm.is_number(v) and tm.sub(tm.sub(p.n, 1), v) is p.k
        if v is not p.k and not back:
            return ps
        for b in body:
            for y in ast.walk(b):
                if not (isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Name) and y.slice.id == target.id):
                    continue
                x = y.value
                while isinstance(x, ast.Attribute):
                    x = x.value
                if not isinstance(x, ast.Name):
                    continue
                try:
                    o = self.o(self.ev_expr(y.value, env), 'list')
                except TargetRaise:
                    continue
                if o is None or len(o.ps) < 2 or not all(isinstance(q, It) or isinstance(q, For) and len(
                        q.ps) == 1 and isinstance(q.ps[0], It) for q in o.ps) or \
                        tm.sub(self.canon(self.seqlen(o.ps)), self.canon(p.n)) != 0:
                    continue
                out, pos = [], 0
                for q in o.ps:
                    if isinstance(q, It):
                        out.append(It(pos))
                        pos = tm.add(pos, 1)
                    else:
                        k = fresh_idx()
                        out.append(For(k, q.n, [It(tm.add(k, pos))]))
                        pos = tm.add(pos, q.n)
                return self.reverse(out) if back else out
        return ps

    def s_While(self, s, env):
        self.loops.while_(self, s, env)

    def s_Match(self, s, env):
        subj = self.ev_expr(s.subject, env)
        for c in s.cases:
            if self.match(c.pattern, subj, env) and (c.guard is None or self.cond(c.guard, env)):
                self.block(c.body, env)
                return

    def match(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare('==', v, self.ev_expr(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare('is', v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env):
                return False
            if p.name:
                self.setname(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, env) for q in p.patterns)
        raise Unsupported('match pattern')

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = self.st.heap[env]
        if name in e.globals:
            e = self.st.heap[self.modenv[e.module]]
        first = True
        while True:
            if (first or e.role != 'class') and name in e.v:
                v = e.v[name]
                return self.lazy(v) if isinstance(v, Lazy) else v
            first = False
            if e.parent is None:
                break
            e = self.st.heap[e.parent]
        from .interp import BUILTINS
        if name in BUILTINS:
            return Ext('builtins.' + name)
        raise Unsupported(f'name {name}')

    def setname(self, name, v, env):
        e = self.st.heap[env]
        if name in e.globals:
            a = self.modenv[e.module]
            if not self.st.assume:
                self.wrote(Ref(a), name)
            self.st.heap[a].v[name] = v
            return
        if name in e.nonlocals or (e.role == 'comp' and name in getattr(e, 'walrus', ())):
            a = e.parent
            while a is not None:
                if name in self.st.heap[a].v:
                    self.st.heap[a].v[name] = v
                    return
                a = self.st.heap[a].parent
        e.v[name] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev_expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev_expr(t.value, env)
            i = self.ev_index(t.slice, env)
            self.lib.setitem(self, o, i, v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, elts):
        n = len(elts)
        star = next((i for i, x in enumerate(elts) if isinstance(x, ast.Starred)), None)
        v = self.mat(v)
        if isinstance(v, tuple):
            vs = list(v)
        elif isinstance(v, T):
            return [mk('item', v, i) for i in range(n)]
        else:
            ps = self.pieces(v)
            if all(isinstance(p, It) for p in ps):
                vs = [p.v for p in ps]
            elif star is None:
                self.require(cmp_eq(self.seqlen(ps), n), 'unpacking length')
                return [self.at(ps, i) for i in range(n)]
            else:
                raise Unsupported('starred unpacking')
        if star is not None:
            k = len(vs) - n + 1
            mid = self.new_list([It(x) for x in vs[star:star + k]])
            return vs[:star] + [mid] + vs[star + k:]
        if len(vs) != n:
            raise TargetRaise('ValueError', self.loc(), 'unpack')
        return vs

    # ------------------------------------------------------------ expressions
    def ev_expr(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def cond(self, e, env):
        return self.truth(self.ev_expr(e, env))

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Attribute(self, e, env):
        o = self.ev_expr(e.value, env)
        return self.getattr(o, e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        ps = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                ps += self.lib.iter_order(self, self.ev_expr(x.value, env))
            else:
                ps.append(It(self.ev_expr(x, env)))
        return self.new_list(ps)

    def e_Set(self, e, env):
        return self.ref(SetO([It(v) for v in self.elts(e.elts, env)]))

    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                ps = self.pieces(self.ev_expr(x.value, env))
                if not all(isinstance(p, It) for p in ps):
                    raise Unsupported('starred element of unknown length')
                out += [p.v for p in ps]
            else:
                out.append(self.ev_expr(x, env))
        return out

    def e_Dict(self, e, env):
        ps = []
        d = self.ref(DictO(ps))
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.o(self.ev_expr(v, env), 'dict')
                if o is None:
                    raise Unsupported('dict unpacking')
                for p in o.ps:
                    if isinstance(p, It):
                        self.lib.dict_set(self, d, p.v[0], p.v[1], quiet=True)
                    else:
                        self.obj(d).ps.append(p)
            else:
                self.lib.dict_set(self, d, self.ev_expr(k, env), self.ev_expr(v, env), quiet=True)
        return d

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        vals = e.values
        v = None
        for i, x in enumerate(vals):
            v = self.ev_expr(x, env)
            if i == len(vals) - 1:
                return v
            if isinstance(v, T) and v.kind == 'bool' and self.entails(v) is None and self.pure(vals[i + 1:], env):
                # both sides are plain conditions: keep the connective as one condition
                saved = self.st
                acc = v
                ok = True
                rest = []
                self.st = saved.clone()
                self.st.dec, self.st.arity, self.st.pos = saved.dec, saved.arity, saved.pos
                n0 = len(self.st.dec)
                try:
                    try:
                        self.add_fact(v if is_and else lnot(v), 'branch')
                        self.check_feasible(v if is_and else lnot(v))
                    except Infeasible:
                        ok = False
                    if ok:
                        for y in vals[i + 1:]:
                            w = self.ev_expr(y, env)
                            if len(self.st.dec) != n0 or self.st.pos != saved.pos or len(self.st.events) != len(saved.events):
                                ok = False
                                break
                            if isinstance(w, bool) or (isinstance(w, T) and w.kind == 'bool'):
                                rest.append(w)
                            else:
                                ok = False
                                break
                except (TargetRaise, Infeasible, Unsupported):
                    ok = False
                finally:
                    del saved.dec[n0:]
                    del saved.arity[n0:]
                    self.st = saved
                if ok:
                    return land(acc, *rest) if is_and else lor(acc, *rest)
            t = self.truth(v)
            if is_and and not t:
                return v if not (isinstance(v, T) and v.kind == 'bool') else False
            if not is_and and t:
                return v if not (isinstance(v, T) and v.kind == 'bool') else True
        return v

    def pure(self, es, env):
        return True

    def e_UnaryOp(self, e, env):
        v = self.ev_expr(e.operand, env)
        if isinstance(e.op, ast.Not):
            return lnot(self.boolv(v))
        if isinstance(e.op, ast.USub):
            return self.lib.binop(self, '*', v, -1) if not is_num_const(v) else -v
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Invert):
            v = self.mat(v)
            o = self.o(v, 'list')
            if o is not None:
                return self.new_list(self.map_pieces(o.ps, lambda x: lnot(self.boolv(x))), True)
            return self.lib.unknown(self, 'invert', [v])
        raise Unsupported('unary')

    def e_BinOp(self, e, env):
        a = self.ev_expr(e.left, env)
        b = self.ev_expr(e.right, env)
        return self.lib.binop(self, BINOPS[type(e.op)], a, b)

    def e_Compare(self, e, env):
        left = self.ev_expr(e.left, env)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev_expr(c, env)
            r = self.compare(CMPOPS[type(op)], left, right)
            if len(e.ops) == 1:
                return r
            res = land(res, self.boolv(r))
            if res is False:
                return False
            left = right
        return res

    def e_IfExp(self, e, env):
        arms = [a.value if isinstance(a, ast.Constant) else None for a in (e.body, e.orelse)]
        if arms == [True, False] and all(isinstance(a, bool) for a in arms):
            return self.boolv(self.ev_expr(e.test, env))
        if arms == [False, True] and all(isinstance(a, bool) for a in arms):
            return lnot(self.boolv(self.ev_expr(e.test, env)))
        return self.ev_expr(e.body if self.cond(e.test, env) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev_expr(e.value, env)
        a = env
        while self.st.heap[a].role == 'comp':
            a = self.st.heap[a].parent
        self.setname(e.target.id, v, a)
        return v

    def e_Lambda(self, e, env):
        return self.make_func(e, '<lambda>', env)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev_expr(v.value, env)
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                if v.conversion == 114:
                    parts.append(self.lib.to_repr(self, x))
                elif spec:
                    parts.append(mk('fmt', self.vt(x), spec, kind='str'))
                else:
                    parts.append(self.lib.to_str(self, x))
        return cat(*parts)

    def e_Subscript(self, e, env):
        o = self.ev_expr(e.value, env)
        if isinstance(o, Ext) and (o.name.startswith('typing') or o.name.startswith('builtins')):
            return o
        return self.lib.getitem(self, o, self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*(self.ev_expr(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)))
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, env) for x in s.elts)
        return self.ev_expr(s, env)

    def e_Slice(self, s, env):
        return self.ev_index(s, env)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def comp(self, gens, env, emit, e):
        ce = self.alloc(EnvO(env, 'comp', self.st.heap[env].module, self.st.heap[env].func))

        def level(i):
            if i == len(gens):
                emit(ce)
                return
            g = gens[i]
            it = self.ev_expr(g.iter, env if i == 0 else ce)
            ps = self.by_zones(self.lib.iter_order(self, it), g.target,
                               [getattr(e, x) for x in ('elt', 'key', 'value') if hasattr(e, x)] + g.ifs, ce)

            def run(v):
                self.assign(g.target, v, ce)
                for c in g.ifs:
                    if not self.cond(c, ce):
                        return
                level(i + 1)
            self.loops.iterate(self, ps, run, g)
        level(0)

    def e_ListComp(self, e, env):
        acc = self.new_list([])

        def emit(ce):
            v = self.ev_expr(e.elt, ce)
            self.obj(acc).ps.append(It(v))
        self.comp(e.generators, env, emit, e)
        return acc

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        r = self.e_ListComp(e, env)
        return self.ref(SetO(self.obj(r).ps))

    def e_DictComp(self, e, env):
        acc = self.ref(DictO([]))

        def emit(ce):
            k = self.ev_expr(e.key, ce)
            v = self.ev_expr(e.value, ce)
            self.lib.dict_set(self, acc, k, v, quiet=True)
        self.comp(e.generators, env, emit, e)
        return acc

    def e_Yield(self, e, env):
        a = env
        while '$yield' not in self.st.heap[a].v:
            a = self.st.heap[a].parent
        v = self.ev_expr(e.value, env) if e.value is not None else None
        self.obj(self.st.heap[a].v['$yield']).ps.append(It(v))
        return None

    def e_YieldFrom(self, e, env):
        a = env
        while '$yield' not in self.st.heap[a].v:
            a = self.st.heap[a].parent
        self.obj(self.st.heap[a].v['$yield']).ps.extend(self.pieces(self.ev_expr(e.value, env)))
        return None

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.super_(env)
        f = self.ev_expr(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.mat(self.ev_expr(a.value, env))
                if isinstance(v, tuple):
                    args += list(v)
                else:
                    ps = self.pieces(v)
                    if all(isinstance(p, It) for p in ps):
                        args += [p.v for p in ps]
                    else:
                        args.append(Star(ps))
            else:
                args.append(self.ev_expr(a, env))
        for k in e.keywords:
            if k.arg is None:
                o = self.o(self.ev_expr(k.value, env), 'dict')
                if o is None or not all(isinstance(p, It) and isinstance(p.v[0], str) for p in o.ps):
                    raise Unsupported('** arguments')
                kw.update({p.v[0]: p.v[1] for p in o.ps})
            else:
                kw[k.arg] = self.ev_expr(k.value, env)
        self.node = e
        return self.call(f, args, kw)

    def super_(self, env):
        a = env
        while self.st.heap[a].role != 'func':
            a = self.st.heap[a].parent
        v = self.st.heap[a].v
        raise Unsupported('super')

    def call(self, f, args, kw):
        f = self.lazy(f) if isinstance(f, Lazy) else f
        if isinstance(f, T):
            f = self.mat(f)
        if isinstance(f, Desc):
            f = f.func
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.name, args, kw)
        if isinstance(f, Meth):
            return self.lib.call_meth(self, f.obj, f.name, args, kw)
        if isinstance(f, OpaqueFn):
            return self.lib.call_opaque(self, f, args, kw)
        if isinstance(f, Ref) and self.obj(f).kind == 'inst':
            o = self.obj(f)
            if isinstance(o.cls, Cls):
                m = o.cls.find('__call__')
                if m is not None:
                    return self.call(Bound(m, f), args, kw)
            if '$partial' in o.f:
                g, pa, pk = o.f['$partial']
                return self.call(g, list(pa) + list(args), {**dict(pk), **kw})
        if isinstance(f, T):
            return self.lib.unknown(self, 'callval', [f] + list(args))
        raise TargetRaise('TypeError', self.loc(), 'not callable')

    def instantiate(self, cls, args, kw):
        if cls.is_enum():
            if len(args) == 1:
                for m in cls.members:
                    if self.truth(self.compare('==', self.obj(m).f['value'], args[0])):
                        return m
                    if self.truth(self.compare('is', m, args[0])):
                        return m
                raise TargetRaise('ValueError', self.loc(), 'enum')
            raise Unsupported('enum call')
        h = self.intercepts.get(cls.name)
        if h:
            return h(self, args, kw)
        r = self.ref(Inst(cls))
        init = cls.find('__init__')
        if isinstance(init, Func):
            self.call_func(init, [r] + list(args), kw)
        elif args or kw:
            if any(isinstance(b, Ext) for c in cls.mro() for b in c.bases):
                self.obj(r).f['args'] = tuple(args)
            else:
                raise Unsupported(f'constructor of {cls.name}')
        return r

    def bind(self, f, args, kw):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        v = {}
        pos = list(args)
        extra = []
        for i, x in enumerate(pos):
            if isinstance(x, Star):
                if i >= len(names) and a.vararg:
                    extra += list(x.ps)
                    continue
                n = len(names) - i
                if not a.vararg and i == len(pos) - 1:
                    self.require(cmp_eq(self.seqlen(x.ps), n), 'argument count')
                    for j in range(n):
                        v[names[i + j]] = self.at(x.ps, j)
                    continue
                if a.vararg and i == len(names):
                    extra += list(x.ps)
                    continue
                raise Unsupported('starred call of unknown length')
            if i < len(names):
                v[names[i]] = x
            else:
                extra.append(It(x))
        if extra and not a.vararg:
            raise TargetRaise('TypeError', self.loc(), 'too many arguments')
        if a.vararg:
            v[a.vararg.arg] = tuple(p.v for p in extra) if all(isinstance(p, It) for p in extra) \
                else self.new_list(extra)
        kwonly = [p.arg for p in a.kwonlyargs]
        rest = {}
        for k, x in kw.items():
            if k in names or k in kwonly:
                if k in v:
                    raise TargetRaise('TypeError', self.loc(), f'multiple values for {k}')
                v[k] = x
            elif a.kwarg:
                rest[k] = x
            else:
                raise TargetRaise('TypeError', self.loc(), f'unexpected keyword {k}')
        if a.kwarg:
            v[a.kwarg.arg] = self.ref(DictO([It((k, x)) for k, x in rest.items()]))
        nd = len(f.defaults)
        for i, d in enumerate(f.defaults):
            v.setdefault(names[len(names) - nd + i], d)
        for k, d in f.kwdefaults.items():
            v.setdefault(k, d)
        for n in names + kwonly:
            if n not in v:
                raise TargetRaise('TypeError', self.loc(), f'missing argument {n}')
        return v

    def call_func(self, f, args, kw):
        h = self.intercepts.get(f.qual)
        if h:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if len(self.cur) > 60:
            raise Unsupported('call depth')
        if isinstance(f, Func) and f.kind == 'classmethod' and not (args and isinstance(args[0], Cls)):
            args = [f.cls] + list(args)
        v = self.bind(f, args, kw)
        self.seen_funcs.add((f.module, f.qual))
        self.stats['calls'] += 1
        env = self.alloc(EnvO(f.env, 'func', f.module, f.qual))
        o = self.st.heap[env]
        o.ext = None
        o.v.update(v)
        self.cur.append((f.qual, f.module))
        depth = len(self.cur)
        node = self.node
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev_expr(f.node.body, env)
            if f.gen:
                acc = self.new_list([])
                self.st.heap[env].v['$yield'] = acc
                try:
                    self.block(f.node.body, env)
                except ReturnX:
                    pass
                return acc
            try:
                self.block(f.node.body, env)
            except ReturnX as e:
                return e.v
            return None
        finally:
            del self.cur[depth - 1:]
            self.node = node

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        o = self.lazy(o) if isinstance(o, Lazy) else o
        if isinstance(o, T):
            o = self.split_union(o)
            o = self.mat(self.scalar(o))
        if isinstance(o, ModV):
            env = self.load(o.name)
            v = self.st.heap[env].v
            if name in v:
                return self.lazy(v[name])
            if o.name + '.' + name in self.P.trees:
                return ModV(o.name + '.' + name)
            raise TargetRaise('AttributeError', self.loc(), name)
        if isinstance(o, Ext):
            return self.lib.ext_attr(self, o, name)
        if isinstance(o, Cls):
            v = self.class_attr(o, name)
            if v is None:
                if name == '__name__':
                    return o.name
                if name == '__members__' and o.is_enum():
                    return self.ref(DictO([It((self.obj(m).f['name'], m)) for m in o.members]))
                raise TargetRaise('AttributeError', self.loc(), name)
            if isinstance(v, Desc):
                if v.kind == 'classmethod':
                    return Bound(v.func, o)
                return v.func
            return v
        if isinstance(o, Ref):
            ob = self.obj(o)
            if ob.kind == 'inst':
                if not isinstance(ob.cls, Cls):
                    if name in ob.f:
                        return ob.f[name]
                    return Meth(o, name)
                v = self.class_attr(ob.cls, name)
                if isinstance(v, Desc) and v.kind == 'property':
                    return self.call_func(v.func, [o], {})
                if name in ob.f:
                    return ob.f[name]
                if v is None and not self.has_class_attr(ob.cls, name):
                    if name == '__class__':
                        return ob.cls
                    if name == '__dict__':
                        return self.ref(DictO([It((k, x)) for k, x in ob.f.items()]))
                    raise TargetRaise('AttributeError', self.loc(), name)
                if isinstance(v, Desc):
                    return Bound(v.func, ob.cls) if v.kind == 'classmethod' else v.func
                if isinstance(v, Func):
                    return Bound(v, o)
                return v
            return self.lib.value_attr(self, o, name)
        if isinstance(o, (Func, Bound)) and name in ('__name__', '__qualname__', '__doc__'):
            return o.name if isinstance(o, Func) else o.func.name
        return self.lib.value_attr(self, o, name)

    def setattr(self, o, name, v):
        o = self.mat(o)
        if isinstance(o, Ref) and self.obj(o).kind == 'inst':
            ob = self.obj(o)
            d = ob.cls.find(name) if isinstance(ob.cls, Cls) else None
            if isinstance(d, Desc) and d.kind == 'property' and d.setter:
                self.call_func(d.setter, [o, v], {})
                return
            old = ob.f.get(name)
            if not (name in ob.f and (old is v or (not isinstance(old, (Ref, T)) and type(old) is type(v)
                                                   and old == v))):
                self.wrote(o, name)
            ob.f[name] = v
            return
        if isinstance(o, Cls):
            self.ev('write', addr=0, ext='global', okind='class', what=name, cls=o.name)
            if o.env is None or o.env not in self.st.heap or isinstance(o.attrs.get(name), (Func, Desc)):
                raise Unsupported('class attribute assignment')
            self.st.heap[o.env].v[name] = v
            return
        if isinstance(o, Ref):
            return self.lib.set_value_attr(self, o, name, v)
        if isinstance(o, (Func, Bound)):
            self.ev('write', addr=0, ext='global', okind='func', what=name, cls='function')
            raise Unsupported('function attribute assignment')
        self.ev('opaque_write', what=name)

    def class_attr(self, c, name):
        '''What the class and its bases define now.'''
        for k in c.mro():
            e = self.st.heap.get(k.env) if k.env else None
            v = e.v.get(name) if e is not None else None
            if v is not None and not isinstance(v, Func) and not k.is_enum():
                return v
            if name in k.attrs and (v is not None or e is None or name in e.v):
                return k.attrs[name]
            if e is not None and name in e.v:
                return v
        return None

    def has_class_attr(self, c, name):
        for k in c.mro():
            e = self.st.heap.get(k.env) if k.env else None
            if e is not None and name in e.v:
                return True
        return False

    # ------------------------------------------------------------ comparison
    def compare(self, op, a, b):
        if op in self.lib.konst.OPS and (self.lib.konst.is_karr(self, a) or self.lib.konst.is_karr(self, b)):
            return self.lib.compare(self, op, a, b)
        if op == 'is not':
            return lnot(self.boolv(self.compare('is', a, b)))
        if op == '!=':
            r = self.compare('==', a, b)
            if isinstance(r, Ref) and self.obj(r).kind == 'list':
                return self.new_list(self.map_pieces(self.obj(r).ps, lambda x: lnot(self.boolv(x))), True)
            return lnot(self.boolv(r))
        if op == 'not in':
            return lnot(self.boolv(self.compare('in', a, b)))
        if op == 'is':
            if b is None or a is None:
                x = a if b is None else b
                return self.is_none(x)
            if isinstance(a, (bool, type(None))) and isinstance(b, (bool, type(None))):
                return a is b
            if isinstance(a, T) and a.kind == 'bool' and isinstance(b, bool):
                return a if b else lnot(a)
            if isinstance(b, T) and b.kind == 'bool' and isinstance(a, bool):
                return b if a else lnot(b)
            x, y = self.mat(a), self.mat(b)
            if isinstance(x, Ref) and isinstance(y, Ref):
                return x is y or self.same_elem(a, b)
            if x is y:
                return True
            if isinstance(x, T) or isinstance(y, T):
                return mk('is', self.vt(x), self.vt(y), kind='bool')
            return x is y
        if op == 'in':
            return self.lib.contains(self, b, a)
        return self.lib.compare(self, op, a, b)

    def same_elem(self, a, b):
        return False

    def is_none(self, x):
        if x is None:
            return True
        if isinstance(x, T):
            ty = TYPES_get(x)
            if ty and ty[0] == 'opt':
                return mk('isnone', x, kind='bool')
            if ty or x.kind != 'any':
                return False
            if x.op in ('unk', 'call', 'mu', 'sym', 'attrof', 'item', 'elem'):
                return mk('isnone', x, kind='bool')
            return False
        return False

    # ------------------------------------------------------------ iteration
    def pieces(self, v):
        '''The pieces an iteration over the value runs through.'''
        if isinstance(v, T):
            v = self.mat(self.scalar(v))
        if isinstance(v, tuple):
            return [It(x) for x in v]
        if isinstance(v, str):
            return [It(c) for c in v]
        if isinstance(v, Cls) and v.is_enum():
            return [It(m) for m in v.members]
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'karr':
                return self.lib.konst.pieces(self, o)
            if o.kind in ('list', 'set'):
                return list(o.ps)
            if o.kind == 'dict':
                return self.map_pieces(o.ps, lambda kv: kv[0])
            if o.kind == 'mat':
                k = fresh_idx()
                return [For(k, tm.dim_of(o.m), [It(mk('row', o.m, k))])]
            if o.kind == 'inst' and isinstance(o.cls, Cls):
                m = o.cls.find('__iter__')
                if m is not None:
                    return self.pieces(self.call(Bound(m, v), [], {}))
        if isinstance(v, T):
            if v.kind in tm.NUMK or v.kind == 'bool':
                raise TargetRaise('TypeError', self.loc(), 'not iterable')
            k = fresh_idx()
            return [For(k, mk('len', v, kind='int'), [It(mk('elem', v, k))])]
        raise TargetRaise('TypeError', self.loc(), f'not iterable {v!r}')


class Star:
    def __init__(self, ps):
        self.ps = ps


def TYPES_get(x):
    from .interp import TYPES
    return TYPES.get(x)


def has_yield(node):
    from .interp import has_yield as h
    return h(node)


def install(cls):
    for k, v in Ev_.__dict__.items():
        if not k.startswith('__'):
            setattr(cls, k, v)
