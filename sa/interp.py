'''
Flow-sensitive abstract interpretation of the package under analysis.

Every statement is evaluated on abstract values (canonical terms, abstract heap objects); conditions that the
facts at hand do not decide partition the analysis; loops over inputs of unknown length are analysed once with a
generic index and summarised by their recurrences.  No code of the package is ever executed.
'''
import ast
import os
from fractions import Fraction as Fr

from . import terms as tm
from .terms import (T, mk, add, sub, mul, neg, div, power, const_of, cmp_le, cmp_lt, cmp_eq, lnot, land, lor,
                    is_number, is_num_const, subst, symbols, cat)
from .dom import *

BUILTINS = {
    'len', 'range', 'enumerate', 'zip', 'list', 'tuple', 'dict', 'set', 'frozenset', 'isinstance', 'issubclass',
    'int', 'float', 'str', 'bool', 'complex', 'abs', 'min', 'max', 'sum', 'any', 'all', 'sorted', 'reversed', 'round',
    'map', 'filter', 'callable', 'print', 'type', 'repr', 'hash', 'id', 'iter', 'next', 'super', 'getattr', 'setattr',
    'hasattr', 'object', 'Exception', 'AssertionError', 'ValueError', 'TypeError', 'IndexError', 'KeyError',
    'NotImplementedError', 'RuntimeError', 'ArithmeticError', 'ZeroDivisionError', 'AttributeError', 'StopIteration',
    'property', 'staticmethod', 'classmethod', 'pow', 'divmod', 'format', 'NotImplemented', 'Ellipsis', 'open', 'vars',
    'dir', 'ord', 'chr', 'bytes', 'slice', 'globals', 'locals', 'OverflowError', 'LookupError', '__name__', '__file__',
    'BaseException', 'FloatingPointError', 'Warning', 'DeprecationWarning', 'UserWarning', 'input', 'exit', 'bytearray',
    'memoryview', 'hex', 'bin', 'oct', 'delattr', 'ascii', 'eval', 'exec', 'OSError', 'KeyboardInterrupt', '__debug__'}
EXC_PARENTS = {
    'AssertionError': ('Exception',), 'ValueError': ('Exception',), 'TypeError': ('Exception',),
    'IndexError': ('LookupError', 'Exception'), 'KeyError': ('LookupError', 'Exception'),
    'ZeroDivisionError': ('ArithmeticError', 'Exception'), 'AttributeError': ('Exception',),
    'NotImplementedError': ('RuntimeError', 'Exception'), 'RuntimeError': ('Exception',)}
MAX_PATHS = 400
MAX_DEPTH = 60
UNROLL = 70
TYPES = tm.TYPES
FIXED = {}
def natural(bv, n, cond):
    '''The range of bv is the whole of a sequence that is read at bv.'''
    return any(x.op in ('elem', 'npelem', 'key', 'val') and x.args[1] is bv and mk('len', x.args[0], kind='int') is n
               for x in tm.subterms(cond))


INSTANCE = {}       # symbols of a quantified condition that do not depend on the bound variable


SINGLE = {}     # fact -> (atom, coefficient, bound) when it bounds one atom
MONOS = {}      # fact -> its monomials


def single_atom(f):
    if f.op not in ('le', 'lt', 'eq0') or not isinstance(f.args[0], T):
        return (None,)
    p = tm.to_poly(f.args[0])
    ms = [m for m in p if m]
    if len(ms) != 1 or len(ms[0]) != 1 or ms[0][0][1] != 1 or p[ms[0]][1] != 0:
        return (None,)
    c = p[ms[0]][0]
    r = -p.get((), (Fr(0), 0))[0] / c
    return (ms[0][0][0], None if f.op == 'eq0' else c, r)


class Program:
    def __init__(self, root, pkg):
        self.root, self.pkg = root, pkg
        self.files, self.trees = {}, {}
        base = os.path.join(root, pkg)
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.py'):
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
                    if rel.endswith('.__init__'):
                        rel = rel[:-9]
                    self.files[rel] = path
                    with open(path, encoding='utf-8') as h:
                        self.trees[rel] = ast.parse(h.read(), path)
        self.is_pkg = {m for m, p in self.files.items() if p.endswith('__init__.py')}


def has_yield(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Interp:
    def __init__(self, program):
        self.P = program
        self.st = State()
        self.next_addr = self.high = 0
        self.blocks = {}
        self.modenv = {}
        self.classes = {}
        self.funcs = {}
        self.cur = []           # call stack of (func qual, module)
        self.node = None
        self.intercepts = {}
        self.overrides = {}
        self.seen_funcs = set()
        self.in_pointwise = False
        self.exploring = 0
        self.memo = {}
        self.meanings = None
        self.in_eq0 = False
        self.cache_fields = set()
        self.stats = {'paths': 0, 'loops': 0, 'calls': 0}
        self.unsup = []
        from . import lib, loops
        self.lib = lib
        self.loops = loops
        self.st.label = 'global'
        for m in sorted(program.trees):
            self.load(m)
        self.st.label = None
        self.base = self.st

    # ------------------------------------------------------------ modules
    def load(self, m):
        if m in self.modenv:
            return self.modenv[m]
        env = self.alloc(EnvO(None, 'module', m))
        self.modenv[m] = env
        save, self.cur = self.cur, [('<module>', m)]
        try:
            for s in self.P.trees[m].body:
                try:
                    self.stmt(s, env)
                except Unsupported as e:
                    self.unsup.append((m, str(e)))
        finally:
            self.cur = save
        return env

    def resolve_import(self, module, level, name):
        if level:
            parts = module_parts = self.cur[-1][1].split('.')
            if self.cur[-1][1] not in self.P.is_pkg:
                parts = parts[:-1]
            if level > 1:
                parts = parts[:-(level - 1)]
            return '.'.join(parts + ([name] if name else []))
        return name

    def lazy(self, v):
        while isinstance(v, Lazy):
            if v.name is None:
                return ModV(v.module)
            if v.module in self.P.trees:
                env = self.load(v.module)
                vs = self.st.heap[env].v if env in self.st.heap else self.base.heap[env].v
                if v.name in vs:
                    v = vs[v.name]
                elif v.module + '.' + v.name in self.P.trees:
                    return ModV(v.module + '.' + v.name)
                else:
                    raise Unsupported(f'import of {v.name} from {v.module}')
            else:
                return Ext(v.module + '.' + v.name)
        return v

    # ------------------------------------------------------------ heap
    def alloc(self, o):
        self.next_addr += 1
        o.ext = self.st.label
        o.own = self.st.ownpath if self.st.ownpath else self.st.ctx
        self.st.heap[self.next_addr] = o
        return self.next_addr

    def ref(self, o):
        return Ref(self.alloc(o))

    def new_list(self, ps, arr=False):
        return self.ref(ListO(list(ps), arr))

    def new_mat(self, m, base=None):
        return self.ref(MatO(m, base))

    def obj(self, r):
        return self.st.heap[r.a]

    def o(self, v, kind=None):
        '''The heap object behind a value (materialising typed inputs), or None.'''
        v = self.mat(v)
        if isinstance(v, Ref):
            o = self.st.heap[v.a]
            return o if kind is None or o.kind == kind else None
        return None

    def loc(self):
        f, m = self.cur[-1] if self.cur else ('?', '?')
        ln = getattr(self.node, 'lineno', 0)
        return (m, f, ln)

    def ev(self, kind, **d):
        if not self.st.assume:
            self.st.events.append(Ev(kind, self.loc(), ctx=self.st.ctx, **d))

    def wrote(self, r, what):
        o = self.st.heap[r.a]
        if not self.st.assume:
            self.ev('write', addr=r.a, ext=o.ext, okind=o.kind, what=what,
                    cls=o.cls.name if o.kind == 'inst' and hasattr(o.cls, 'name') else o.kind)

    # ------------------------------------------------------------ inputs
    def ann(self, node, module):
        '''Type descriptor of an annotation.'''
        if node is None:
            return ('any',)
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ('none',)
            if isinstance(node.value, str):
                try:
                    return self.ann(ast.parse(node.value, mode='eval').body, module)
                except SyntaxError:
                    return ('any',)
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a, b = self.ann(node.left, module), self.ann(node.right, module)
            if b == ('none',):
                return ('opt', a)
            if a == ('none',):
                return ('opt', b)
            return ('union', (a, b))
        if isinstance(node, ast.Subscript):
            head = node.value.attr if isinstance(node.value, ast.Attribute) else getattr(node.value, 'id', '')
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if head in ('List', 'list', 'Iterable', 'Sequence', 'Collection', 'Set', 'FrozenSet'):
                return ('list', self.ann(args[0], module))
            if head == 'Optional':
                return ('opt', self.ann(args[0], module))
            if head in ('Dict', 'dict', 'Mapping'):
                return ('dict', self.ann(args[0], module), self.ann(args[1], module))
            if head in ('Tuple', 'tuple'):
                return ('tuple', tuple(self.ann(a, module) for a in args))
            if head == 'Callable':
                return ('fn',)
            if head == 'Union':
                ts = tuple(self.ann(a, module) for a in args)
                if ('none',) in ts:
                    rest = tuple(x for x in ts if x != ('none',))
                    return ('opt', rest[0] if len(rest) == 1 else ('union', rest))
                return ('union', ts)
            return ('any',)
        name = node.attr if isinstance(node, ast.Attribute) else getattr(node, 'id', None)
        simple = {'int': ('int',), 'float': ('float',), 'str': ('str',), 'bool': ('bool',), 'ndarray': ('mat',),
                  'list': ('list', ('any',)), 'dict': ('dict', ('any',), ('any',)), 'List': ('list', ('any',)),
                  'Callable': ('fn',)}
        if name in simple:
            return simple[name]
        if name:
            try:
                v = self.lazy(self.base_lookup(name, module))
            except Unsupported:
                v = None
            if isinstance(v, Cls):
                return ('cls', v)
            if name in self.classes:
                return ('cls', self.classes[name])
        return ('any',)

    def base_lookup(self, name, module):
        env = self.modenv[module]
        heap = self.st.heap if env in self.st.heap else self.base.heap
        if name in heap[env].v:
            return heap[env].v[name]
        raise Unsupported(name)

    def generic(self, name, ty, opt_fork=False):
        '''An arbitrary value of the given type, named by the term.'''
        k = ty[0]
        if k == 'opt':
            g = tm.mk(name.op, *name.args, kind='any')
            TYPES[g] = ty
            return g
        if k == 'int':
            return mk(name.op, *name.args, kind='int')
        if k == 'float':
            return mk(name.op, *name.args, kind='real')
        if k == 'bool':
            return mk(name.op, *name.args, kind='bool')
        if k == 'str':
            return mk(name.op, *name.args, kind='str')
        if k == 'tuple':
            return tuple(self.generic(mk('attrof', name, f'#{i}'), x) for i, x in enumerate(ty[1]))
        if k in ('cls', 'list', 'dict', 'union', 'mat', 'fn'):
            g = mk(name.op, *name.args, kind='any')
            TYPES[g] = ty
            return g
        return mk(name.op, *name.args, kind='any')

    def mat(self, v):
        '''Materialises a typed input as a heap object.'''
        if isinstance(v, Ref) or not isinstance(v, T) or v.kind != 'any':
            return v
        if v in self.st.matz:
            return Ref(self.st.matz[v])
        ty = self.type_of(v)
        if ty is None:
            return v
        if ty[0] == 'fn':
            return OpaqueFn(v)
        if ty[0] not in ('cls', 'list', 'dict', 'mat'):
            return v
        st = self.st
        save = (st.label, st.ownpath, st.assume, self.node)
        st.label = self.label_of(v)
        st.ownpath = tuple(i for i in st.ctx if i in symbols(v)) or ('*',)
        st.assume += 1
        try:
            r = self.build(v, ty)
        except TargetRaise:
            raise Infeasible        # the value exists: its constructor accepted it
        finally:
            st.label, st.ownpath, st.assume, self.node = save
        st.matz[v] = r.a
        return r

    def label_of(self, v):
        names = [s.args[0] for s in symbols(v) if s.op == 'sym' and isinstance(s.args[0], str)]
        for n in names:
            if n.startswith('in:'):
                return n
        return names[0] if names else 'in:?'

    def build(self, v, ty):
        if ty[0] == 'list':
            k = fresh_idx()
            n = mk('len', v, kind='int')
            e = self.generic(mk('elem', v, k), ty[1])
            if self.overrides.get('small'):
                return self.new_list([It(self.generic(mk('elem', v, i), ty[1])) for i in range(self.overrides['small'])])
            return self.new_list([For(k, n, [It(e)])])
        if ty[0] == 'dict':
            k = fresh_idx()
            n = mk('len', v, kind='int')
            if self.overrides.get('small'):
                return self.ref(DictO([It((self.generic(mk('key', v, i), ty[1]), self.generic(mk('val', v, i), ty[2])))
                                       for i in range(self.overrides['small'])]))
            key = self.generic(mk('key', v, k), ty[1])
            val = self.generic(mk('val', v, k), ty[2])
            return self.ref(DictO([For(k, n, [It((key, val))])]))
        if ty[0] == 'mat':
            return self.new_mat(tm.matsym(v))
        cls = ty[1]
        h = self.overrides.get(('build', cls.name))
        if h:
            return h(self, v, cls)
        return self.build_inst(v, cls)

    def build_inst(self, v, cls, **given):
        init = cls.find('__init__')
        kw = {}
        if isinstance(init, Func):
            a = init.node.args
            names = [x for x in a.posonlyargs + a.args][1:] + a.kwonlyargs
            bare = set()
            if self.overrides.get('bare') and cls.name != 'Unitary':
                ds = a.defaults and list(zip((a.posonlyargs + a.args)[-len(a.defaults):], a.defaults)) or []
                bare = {p.arg for p, d in ds + list(zip(a.kwonlyargs, a.kw_defaults))
                        if isinstance(d, ast.Constant) and d.value is None}
            for p in names:
                if p.arg in bare and p.arg not in given:
                    continue
                if p.arg in given:
                    kw[p.arg] = given[p.arg]
                    continue
                ty = self.overrides.get((cls.name, p.arg)) or self.ann(p.annotation, init.module)
                if ty[0] == 'opt' and (cls.name, p.arg) not in self.overrides:
                    ty = ty[1]
                nm = mk('attrof', v, p.arg)
                if ty[0] == 'mat' and cls.name == 'Unitary':
                    atom = mk('msym', mk('attrof', v, p.arg, kind='any'), kind='matom')
                    tm.UNITARY.add(atom)
                    tm.DET1.add(atom)
                if ty[0] == 'mat':
                    nm = mk('attrof', v, p.arg, kind='any')
                kw[p.arg] = self.generic(nm, ty)
        return self.instantiate(cls, [], kw)

    # ------------------------------------------------------------ facts
    def canon(self, b):
        return subst(b, self.st.eqs) if self.st.eqs and isinstance(b, T) else b

    def bounds(self, a):
        '''Constant lower/upper bounds of an atom from its nature and single-atom facts.'''
        lo = Fr(0) if tm.nonneg_atom(a) else None
        hi = None
        if a.op == 'draw' and a.args[0] == 'u01':
            lo, hi = Fr(0), Fr(1)
        if a is tm.PI:
            return Fr(314159, 100000), Fr(314160, 100000)
        for f in self.st.facts:
            s = SINGLE.get(f)
            if s is None:
                s = SINGLE[f] = single_atom(f)
            if s[0] is a:
                c, r = s[1], s[2]
                if c is None:
                    lo = hi = r
                elif c > 0:
                    hi = r if hi is None else min(hi, r)
                else:
                    lo = r if lo is None else max(lo, r)
        if a.op in ('min', 'max'):
            xs = a.args[0] if isinstance(a.args[0], tuple) else a.args
            bs = [self.interval(tm.to_poly(x)) if isinstance(x, T) else (const_of(x),) * 2 for x in xs]
            ls, hs = [x for x, _ in bs], [x for _, x in bs]
            pick = min if a.op == 'min' else max
            if None not in ls or a.op == 'max':
                ls = [x for x in ls if x is not None] + ([] if lo is None else [lo])
                lo = max([pick([x for x in ls])] + ([] if lo is None else [lo])) if ls else lo
            if None not in hs or a.op == 'min':
                hs = [x for x in hs if x is not None]
                hi = min([pick(hs)] + ([] if hi is None else [hi])) if hs else hi
        if a.op == 'powt' and isinstance(a.args[1], T) and (const_of(a.args[0]) or 0) > 1 and (lo is None or lo < 1):
            if self.entails(cmp_le(0, a.args[1])) is True:
                lo = Fr(1)
        if a.op == 'sum' and len(a.args) == 3 and lo is None:
            bv, n, body = a.args
            if isinstance(body, T) and any(f.op == 'forall' and cmp_eq(f.args[1], n) is True for f in self.st.facts):
                if self.entails(forall_t(bv, n, cmp_le(0, body))) is True:
                    lo = Fr(0)
        return lo, hi

    def interval(self, p):
        lo = hi = Fr(0)
        for m, c in p.items():
            if c[1] != 0:
                return None, None
            l, h = Fr(1), Fr(1)
            for a, e in m:
                al, ah = self.bounds(a)
                if e.denominator != 1:
                    if al is None or al < 0:
                        return None, None
                    l, h = (Fr(0), None)
                    continue
                if e < 0:
                    if al is None or al <= 0:
                        if al is not None and al >= 0:
                            al, ah = Fr(0), None
                            l, h = Fr(0), None
                            continue
                        return None, None
                    al, ah = (1 / ah if ah else Fr(0)), 1 / al
                    e = -e
                if al is not None and al >= 0:
                    if l is not None and l >= 0:
                        l = l * al ** int(e)
                        h = None if h is None or ah is None else h * ah ** int(e)
                        continue
                if e % 2 == 0:
                    l, h = (Fr(0), None) if l >= 0 else (None, None)
                    if l is None:
                        return None, None
                    continue
                if len(m) == 1 and e == 1:
                    l, h = al, ah
                    continue
                return None, None
            if c[0] >= 0:
                l2, h2 = (None if l is None else l * c[0]), (None if h is None else h * c[0])
            else:
                l2, h2 = (None if h is None else h * c[0]), (None if l is None else l * c[0])
            lo = None if lo is None or l2 is None else lo + l2
            hi = None if hi is None or h2 is None else hi + h2
        return lo, hi

    def entails(self, b):
        '''True/False when the facts decide the condition, None otherwise.'''
        if isinstance(b, bool):
            return b
        b = self.canon(b)
        if isinstance(b, bool):
            return b
        if not isinstance(b, T):
            return None
        F = self.st.facts
        if b in F:
            return True
        n = lnot(b)
        if n in F:
            return False
        if b.op == 'and':
            rs = [self.entails(x) for x in b.args]
            if any(r is False for r in rs):
                return False
            return True if all(r is True for r in rs) else None
        if b.op == 'or':
            rs = [self.entails(x) for x in b.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            for f in F:
                if f.op == 'or' and any(x in b.args for x in f.args) and \
                        all(x in b.args or lnot(x) in F for x in f.args):
                    return True
            return None
        if b.op == 'not':
            r = self.entails(b.args[0])
            return None if r is None else not r
        if b.op in ('le', 'lt', 'eq0'):
            r = self.arith(b)
            if r is not None:
                return r
        if b.op in ('forall', 'exists'):
            return self.entails_q(b)
        for f in F:
            if f.op == 'forall':
                if self.instance(f, b):
                    return True
                if self.instance(f, n):
                    return False
            elif f.op == 'or':
                # unit resolution
                rest = [x for x in f.args if not (lnot(x) in F)]
                if len(rest) == 1 and rest[0] is b:
                    return True
                if len(rest) == 1 and rest[0] is n:
                    return False
        if b.op == 'eq0' and not self.in_eq0 and any(f.op == 'forall' for f in F):
            self.in_eq0 = True
            try:
                if self.entails(cmp_lt(0, b.args[0])) is True or self.entails(cmp_lt(b.args[0], 0)) is True:
                    return False
            finally:
                self.in_eq0 = False
        return None

    def instance(self, f, b):
        r = INSTANCE.get((f, b))
        if r is None:
            r = INSTANCE[f, b] = self.instance_(f, b)
        if r is True or r is False:
            return r
        return any(self.entails(cmp_lt(t, f.args[1])) is True for t in r)

    def instance_(self, f, b):
        bv, n, cond = f.args
        if not isinstance(cond, T):
            return cond is False
        conds = cond.args if cond.op == 'and' else (cond,)
        cands = None
        whole = within = None
        for c in conds:
            if not isinstance(c, T) or c.op != b.op:
                continue
            fx = FIXED.get((c, bv))
            if fx is None:
                fx = FIXED[c, bv] = frozenset(y for y in tm.symbols(c) if bv not in tm.symbols(y))
            if not fx <= tm.symbols(b):
                continue
            if cands is None:
                sub_ = tm.subterms(b)
                cands = {x for x in sub_ if isinstance(x, T) and x.kind == 'int'}
                cands |= {a for x in sub_ if x.op in ('elem', 'npelem', 'key', 'val') for a in x.args[1:2]
                          if isinstance(a, (T, int))}
            for t in cands:
                if subst(c, {bv: t}) is b:
                    if whole is None:
                        whole = natural(bv, n, cond)
                    if whole:
                        return True
                    within = (within or ()) + (t,)
        return within or False

    def entails_q(self, b):
        bv, n, cond = b.args
        if const_of(n) is not None and const_of(n) <= 0:
            return b.op == 'forall'
        if b.op == 'exists':
            r = self.entails(forall_t(bv, n, lnot(cond)))
            return None if r is None else not r
        if self.entails(cond) is True:      # with the bound variable free
            return True
        if isinstance(cond, T) and cond.op == 'and':
            if all(self.entails(forall_t(bv, n, c)) is True for c in cond.args):
                return True
        for f in self.st.facts:
            if f.op == 'forall' and f.args[1] is n or (f.op == 'forall' and cmp_eq(f.args[1], n) is True):
                fc = subst(f.args[2], {f.args[0]: bv})
                cs = fc.args if isinstance(fc, T) and fc.op == 'and' else (fc,)
                if cond in cs:
                    return True
                if isinstance(cond, T) and cond.op == 'or' and any(x in cond.args for x in cs if isinstance(x, T)):
                    return True
                if lnot(cond) in cs and self.entails(cmp_lt(0, n)):
                    return False
        return self.pointwise(bv, n, cond)

    def pointwise(self, bv, n, cond):
        '''Proves a quantified condition at an arbitrary index from the quantified facts over the same range.'''
        if self.in_pointwise:
            return None
        fs = [f for f in self.st.facts if f.op == 'forall' and (f.args[1] is n or cmp_eq(f.args[1], n) is True)]
        if not fs:
            return None
        k = fresh_idx()
        st = self.st
        save = st.facts, st.eqs
        st.facts, st.eqs = dict(st.facts), dict(st.eqs)
        self.in_pointwise = True
        try:
            self.add_fact(cmp_lt(k, n), 'assumed')
            for f in fs:
                self.add_fact(subst(f.args[2], {f.args[0]: k}), 'assumed')
            return True if self.entails(subst(cond, {bv: k})) is True else None
        except Infeasible:
            return None
        finally:
            self.in_pointwise = False
            st.facts, st.eqs = save

    def arith(self, b):
        d = b.args[0]
        if not isinstance(d, T) or d.kind not in tm.NUMK:
            return None
        p = tm.to_poly(d)
        lo, hi = self.interval(p)
        if b.op == 'eq0':
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo is not None and lo == hi == 0:
                return True
        else:
            strict = b.op == 'lt'
            if hi is not None and (hi < 0 or (hi == 0 and (not strict or self.u_open(p)))):
                return True
            if lo is not None and (lo > 0 or (lo == 0 and (strict or self.u_open(tm.to_poly(neg(d)))))):
                return False
        for f in list(self.st.facts):
            if f.op not in ('le', 'lt', 'eq0') or not isinstance(f.args[0], T):
                continue
            ms = MONOS.get(f)
            if ms is None:
                ms = MONOS[f] = frozenset(m for m in tm.to_poly(f.args[0]) if m)
            if ms.isdisjoint(p):
                continue        # nothing cancels: no better than the bounds of the parts
            fs = [f.args[0]] if f.op != 'eq0' else [f.args[0], neg(f.args[0])]
            for fd in fs:
                fstrict = f.op == 'lt'
                q = tm.to_poly(sub(d, fd))          # d = fd + (d - fd), fd <= 0
                l1, h1 = self.interval(q)
                if b.op != 'eq0' and h1 is not None and (h1 < 0 or (h1 == 0 and (b.op == 'le' or fstrict))):
                    return True
                if b.op == 'eq0' and h1 is not None and (h1 < 0 or (h1 == 0 and fstrict)):
                    return False
                q = tm.to_poly(add(d, fd))          # d = (d + fd) - fd, -fd >= 0
                l2, h2 = self.interval(q)
                if b.op != 'eq0' and l2 is not None and (l2 > 0 or (l2 == 0 and (b.op == 'lt' or fstrict))):
                    return False
                if b.op == 'eq0' and l2 is not None and (l2 > 0 or (l2 == 0 and fstrict)):
                    return False
        return None if b.op == 'eq0' else self.arith_at_ends(b, d, p)

    def arith_at_ends(self, b, d, p):
        '''Absolute values of known sign; an affine function of a uniform draw is judged at both ends.'''
        for m in p:
            for a, e in m:
                if a.op == 'abs' and isinstance(a.args[0], T) and a.args[0].kind in tm.NUMK:
                    x = a.args[0]
                    for y in (x, neg(x)):
                        if self.entails(cmp_le(0, y)) is True:
                            return self.entails((cmp_lt if b.op == 'lt' else cmp_le)(subst(d, {a: y}), 0))
        for m in p:
            for a, e in m:
                if a.op == 'draw' and a.args[0] == 'u01' and e == 1 and len(m) > 1:
                    if any(x is a and q != 1 or x is not a and a in tm.subterms(x) for n in p for x, q in n):
                        continue
                    r0 = self.entails((cmp_lt if b.op == 'lt' else cmp_le)(subst(d, {a: 0}), 0))
                    if r0 is True and self.entails(cmp_le(subst(d, {a: 1}), 0)) is True:
                        return True
        return None

    def u_open(self, p):
        '''The upper end is attained only by a uniform draw, which never reaches 1.'''
        for m, c in p.items():
            if len(m) == 1 and m[0][0].op == 'draw' and m[0][0].args[0] == 'u01' and m[0][1] == 1 and c[0] > 0:
                return True
        return False

    def add_fact(self, b, origin='branch'):
        b = self.canon(b)
        if b is True:
            return
        if b is False:
            raise Infeasible
        if not isinstance(b, T):
            return
        if b.op == 'and':
            for x in b.args:
                self.add_fact(x, origin)
            return
        if b in self.st.facts:
            return
        if b.op == 'or':
            rest = [x for x in b.args if self.entails(x) is not False]
            if not rest:
                raise Infeasible
            if len(rest) == 1:
                return self.add_fact(rest[0], origin)
        self.st.facts[b] = origin
        if b.op == 'forall':
            self.bounds_of(b, origin)
        if b.op == 'le' and (cmp_le(0, b.args[0]) in self.st.facts or self.low(b.args[0]) == 0):
            self.add_fact(cmp_eq(b.args[0], 0), origin)
        if b.op in ('le', 'lt'):
            x = single_atom(b)
            if x[0] is not None and x[0].op == 'max' and x[1] is not None and x[1] < 0 and len(x[0].args) == 2:
                # max(a, c) is above c, so it is a
                u, v = x[0].args
                for u, v in ((u, v), (v, u)):
                    cv = const_of(v)
                    if cv is not None and cv < x[2]:
                        self.add_fact((cmp_le if b.op == 'le' else cmp_lt)(x[2], u), origin)
        n = lnot(b)
        if isinstance(n, T) and b.op != 'or':
            for f in [f for f in self.st.facts if f.op == 'or' and n in f.args]:
                rest = [x for x in f.args if x is not n and self.entails(x) is not False]
                if not rest:
                    raise Infeasible
                if len(rest) == 1:
                    self.add_fact(rest[0], self.st.facts[f])
        if b.op == 'eq0':
            self.learn_eq(b.args[0])
        elif b.op == 'eq':
            x, y = b.args
            if isinstance(x, T) and not isinstance(y, T) and x.kind in ('str', 'any', 'bool'):
                self.st.eqs[x] = y
            elif isinstance(y, T) and not isinstance(x, T) and y.kind in ('str', 'any', 'bool'):
                self.st.eqs[y] = x
        elif b.op == 'not' and isinstance(b.args[0], T) and b.args[0].op in ('sym', 'attrof', 'elem') and \
                b.args[0].kind == 'bool':
            self.st.eqs[b.args[0]] = False
        elif b.kind == 'bool' and b.op in ('sym', 'attrof', 'elem'):
            self.st.eqs[b] = True

    def low(self, d):
        if not isinstance(d, T) or d.kind not in tm.NUMK:
            return None
        p = tm.to_poly(d)
        return self.interval(p)[0] if len(p) <= 3 else None

    def bounds_of(self, b, origin):
        '''All k < n satisfy k < m (m >= 0): then n <= m.'''
        bv, n, cond = b.args
        for c in (cond.args if isinstance(cond, T) and cond.op == 'and' else (cond,)):
            if isinstance(c, T) and c.op in ('le', 'lt') and isinstance(c.args[0], T) and c.args[0].kind in tm.NUMK:
                p = tm.to_poly(c.args[0])
                if p.get(((bv, 1),)) == (1, 0) and sum(1 for mo in p if any(bv in tm.symbols(a) for a, e in mo)) == 1:
                    m = sub(bv, c.args[0]) if c.op == 'lt' else add(sub(bv, c.args[0]), 1)
                    if isinstance(m, T) and bv in tm.symbols(m):
                        continue
                    if self.entails(cmp_le(0, m)) is True:
                        self.add_fact(cmp_le(n, m), origin)

    def learn_eq(self, d):
        if not isinstance(d, T):
            return
        p = tm.to_poly(d)
        if len(p) > 3:
            return
        pref = {'shape': 0, 'len': 1, 'attrof': 2, 'lv': 3, 'idx': 4}
        best = None
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and c[1] == 0 and abs(c[0]) == 1 and m[0][0].op in ('shape', 'len', 'attrof', 'sym', 'idx'):
                a = m[0][0]
                rest = tm.from_poly({k: v for k, v in p.items() if k != m})
                val = neg(rest) if c[0] == 1 else rest
                if isinstance(val, T) and a in tm.subterms(val):
                    continue
                r = (pref.get(a.op, 5), -a.id)
                if best is None or r < best[0]:
                    best = (r, a, val)
        if best:
            _, a, val = best
            val = subst(val, self.st.eqs)
            if val is a or (isinstance(val, T) and a in tm.subterms(val)):
                return
            self.st.eqs = {k: subst(v, {a: val}) for k, v in self.st.eqs.items()}
            self.st.eqs[a] = val
            st = self.st
            new = {}
            for f, o in st.facts.items():
                new.setdefault(f, o)
                g = subst(f, {a: val})
                if isinstance(g, T):
                    new.setdefault(g, o)
                elif g is False:
                    raise Infeasible
            st.facts = new

    # ------------------------------------------------------------ choices
    def memo_key(self, node):
        '''Identifies a point of the exploration: the partitions that reach it with the same decisions share its state.'''
        st = self.st
        return node, st.count('#loops'), tuple(st.dec[:st.pos]), st.ctx, self.next_addr

    def recall(self, key):
        return self.memo.get(key) if self.st.lineage is self.memo.get('lineage') is not None else None

    def remember(self, key, v):
        if self.st.lineage is self.memo.get('lineage') is not None:
            self.memo[key] = v

    def choose(self, n):
        if not self.exploring:
            raise Unsupported('a choice outside an exploration')
        st = self.st
        if st.pos < len(st.dec):
            c = st.dec[st.pos]
        else:
            c = 0
            st.dec.append(0)
            st.arity.append(n)
        if st.pos >= len(st.arity):
            st.arity.append(n)
        st.pos += 1
        self.fork_addr(st.first, tuple(st.dec[:st.pos]))
        return c

    def fork_addr(self, *key):
        '''What a partition allocates after its decisions gets addresses of its own, the same on every replay.'''
        key += self.next_addr,
        b = self.blocks.get(key)
        if b is None:
            self.high = max(self.high, self.next_addr) + 10000000
            b = self.blocks[key] = self.high
        self.next_addr = b

    def decide(self, b):
        b = self.boolv(b)
        r = self.entails(b)
        if r is not None:
            return r
        if self.st.assume and self.overrides.get('assume_nofork'):
            pass
        c = self.choose(2)
        f = b if c == 0 else lnot(b)
        for g in f.args if isinstance(f, T) and f.op == 'and' else (f,):
            if g is not f and self.entails(g) is False:
                raise Infeasible
            self.add_fact(g, 'branch')
            self.check_feasible(g)
        return c == 0

    def check_feasible(self, f):
        '''Cheap contradiction test of a newly added branch fact.'''
        f = self.canon(f)
        if f is False:
            raise Infeasible
        if not isinstance(f, T):
            return
        o = self.st.facts.pop(f, None)
        try:
            if self.entails(f) is False:
                raise Infeasible
        finally:
            if o is not None:
                self.st.facts[f] = o

    def explore(self, fn, st0=None, limit=MAX_PATHS):
        '''All outcomes of fn from the state: one per partition of the analysis.'''
        st0 = st0 or self.st
        save, scur, snode = self.st, list(self.cur), self.node
        memo, self.memo = self.memo, {}         # analyses shared by the partitions of this exploration
        self.exploring += 1
        try:
            return self.partitions(fn, st0, limit, scur)
        finally:
            self.exploring -= 1
            self.memo = memo
            self.st, self.cur, self.node = save, scur, snode

    def partitions(self, fn, st0, limit, scur):
        snode = self.node
        outs, stack = [], [[]]
        first = last = self.next_addr
        tok = self.memo['lineage'] = object()
        while stack:
            pre = stack.pop()
            st = st0.clone()
            last = max(last, self.next_addr)
            self.next_addr = first          # equal decisions make equal addresses
            st.dec, st.arity, st.pos = list(pre), [2] * len(pre), 0
            st.lineage = tok
            st.first = first
            self.st, self.cur, self.node = st, list(scur), snode
            try:
                o = Out('ret', fn(), st)
            except TargetRaise as e:
                o = Out('raise', e, st)
            except ReturnX as e:
                o = Out('return', e.v, st)
            except BreakX:
                o = Out('break', None, st)
            except ContinueX:
                o = Out('ret', None, st)
            except Infeasible:
                o = None
            except Unsupported as e:
                o = Out('unsup', f'{e} at {self.loc()}', st)
            except RecursionError:
                o = Out('unsup', 'recursion', st)
            for i in range(len(st.dec) - 1, len(pre) - 1, -1):
                for alt in range(1, st.arity[i]):
                    stack.append(st.dec[:i] + [alt])
            if o is not None:
                outs.append(o)
                self.stats['paths'] += 1
            if len(outs) + len(stack) > limit:
                self.next_addr = max(last, self.next_addr)
                self.fork_addr('end')
                raise Unsupported('too many partitions')
        self.next_addr = max(last, self.next_addr)
        self.fork_addr('end')
        return outs

    # ------------------------------------------------------------ truth
    def boolv(self, v):
        '''The condition under which a value is true.'''
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_num_const(v):
            return v != 0
        if isinstance(v, str):
            return v != ''
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, T):
            if v.kind == 'bool':
                return v
            if v.kind in tm.NUMK:
                return lnot(cmp_eq(v, 0))
            if v.kind == 'str':
                return mk('nonempty', v, kind='bool') if v.op != 'cat' or not any(
                    isinstance(x, str) and x for x in v.args) else True
            ty = TYPES.get(v)
            if ty and ty[0] == 'opt':
                isn = self.entails(mk('isnone', v, kind='bool'))
                if isn is True:
                    return False
                if isn is None:
                    if self.decide(mk('isnone', v, kind='bool')):
                        return False
            w = self.mat(v)
            if isinstance(w, (Ref, OpaqueFn)):
                return self.boolv(w)
            ty = self.type_of(v)
            if ty and ty[0] in ('int', 'float', 'str', 'bool'):
                return self.boolv(self.scalar(v))
            return mk('truth', v, kind='bool')
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'karr' and o.a.size == 1:
                return bool(o.a.item())
            if o.kind == 'list' and o.arr and len(o.ps) == 1 and isinstance(o.ps[0], It):
                return self.boolv(o.ps[0].v)
            if o.kind in ('list', 'dict', 'set'):
                return lnot(cmp_eq(self.seqlen(o.ps), 0))
            if o.kind == 'inst':
                for m in ('__bool__', '__len__'):
                    f = o.cls.find(m)
                    if f is not None:
                        return self.boolv(self.call(Bound(f, v), [], {}))
            return True
        return True

    def truth(self, v):
        return self.decide(self.boolv(v))

    def type_of(self, v):
        '''Type of a symbolic value, with optional/union refined by the facts.'''
        ty = TYPES.get(v)
        if ty is None:
            if v in self.st.cnt.get('#castz', {}):
                return self.st.cnt['#castz'][v]
            return None
        if ty[0] == 'opt':
            n = mk('isnone', v, kind='bool')
            r = self.entails(n)
            if r is True:
                return ('none',)
            ty = ty[1]
        if ty[0] == 'union':
            ok = []
            for x in ty[1]:
                if x[0] == 'cls':
                    r = self.entails(mk('isinst', v, x[1].name, kind='bool'))
                    if r is True:
                        return x
                    if r is False:
                        continue
                ok.append(x)
            if len(ok) == 1:
                return ok[0]
            if not ok:
                return None
            return ('union', tuple(ok))
        return ty

    def split_union(self, v):
        '''Partitions on the class of an input that may be one of several classes.'''
        while isinstance(v, T):
            ty = self.type_of(v)
            if ty and ty[0] == 'union':
                x = ty[1][0]
                if x[0] == 'cls':
                    self.decide(mk('isinst', v, x[1].name, kind='bool'))
                    continue
            break
        return v

    def scalar(self, v):
        '''An optional scalar input as a number/string once it is used as one.'''
        if isinstance(v, T) and v.kind == 'any':
            ty = self.type_of(v)
            kinds = {'int': 'int', 'float': 'real', 'str': 'str', 'bool': 'bool'}
            if ty and ty[0] in kinds:
                r = mk(v.op, *v.args, kind=kinds[ty[0]])
                return self.st.eqs.get(r, r) if v.op == 'lv' else r
        return v

    # ------------------------------------------------------------ sequences
    def seqlen(self, ps):
        n = 0
        for p in ps:
            if isinstance(p, It):
                n = add(n, 1)
            elif isinstance(p, For):
                b = self.seqlen(p.ps)
                if isinstance(b, T) and p.k in symbols(b):
                    bv = mk('bv', tm.bv_depth(b) + 1, kind='int')
                    n = add(n, mk('sum', bv, p.n, subst(b, {p.k: bv}), kind='int'))
                else:
                    n = add(n, mul(p.n, b))
            elif isinstance(p, If):
                b = self.seqlen(p.ps)
                if self.redundant(p):
                    n = add(n, b)
                    continue
                n = add(n, mul(b, mk('count', p.c, kind='int')))
            elif isinstance(p, Perm):
                n = add(n, self.seqlen(p.ps))
            else:
                n = add(n, mk('len', p.t, kind='int'))
        return n

    def redundant(self, p):
        '''A condition that only says that there is at least one element.'''
        if not (len(p.ps) == 1 and isinstance(p.ps[0], For)):
            return False
        n, c = p.ps[0].n, self.canon(p.c)
        return isinstance(n, T) and (c is self.canon(cmp_le(1, n)) or c is self.canon(lnot(cmp_eq(n, 0))))

    def inst_value(self, v, mp, st=None):
        '''The value with index symbols replaced; template objects are copied per instance.'''
        if isinstance(v, T):
            return subst(v, mp)
        if isinstance(v, tuple):
            return tuple(self.inst_value(x, mp) for x in v)
        if isinstance(v, Ref):
            return self.inst_ref(v, mp)
        if isinstance(v, Bound):
            return Bound(v.func, self.inst_value(v.self_, mp))
        if isinstance(v, Func) and v.env is not None:
            e = self.st.heap.get(v.env)
            if e is not None and e.own and any(k in e.own for k in mp):
                f = Func(v.node, v.name, v.qual, v.module, self.inst_ref(Ref(v.env), mp).a, v.defaults,
                         v.kwdefaults, v.gen)
                f.kind, f.cls = v.kind, v.cls
                return f
        if isinstance(v, OpaqueFn):
            return OpaqueFn(subst(v.name, mp))
        return v

    def inst_ref(self, r, mp):
        o = self.st.heap[r.a]
        if not o.own or not any(k in o.own for k in mp):
            return r
        key = ('inst', r.a, tuple(sorted(((k.id, v if not isinstance(v, T) else ('t', v.id))
                                          for k, v in mp.items()), key=repr)))
        if key in self.st.matz:
            return Ref(self.st.matz[key])
        c = o.clone()
        self.next_addr += 1
        a = self.next_addr
        newown = []
        for x in o.own:
            if x in mp:
                newown += [y for y in self.st.ctx if isinstance(mp[x], T) and y in symbols(mp[x]) and y not in newown]
                if isinstance(mp[x], T):
                    newown += sorted((y for y in symbols(mp[x]) if y.op == 'idx' and y not in newown),
                                     key=lambda y: y.id)
            elif x not in newown:
                newown.append(x)
        c.own = tuple(newown)
        self.st.heap[a] = c
        self.st.matz[key] = a
        self.map_obj(c, lambda x: self.inst_value(x, mp), lambda p: self.inst_piece(p, mp), mp)
        for t, ad in list(self.st.matz.items()):
            if ad == r.a and isinstance(t, T):
                self.st.matz.setdefault(subst(t, mp), a)
        return Ref(a)

    def map_obj(self, c, fv, fp, mp):
        if c.kind == 'inst':
            c.f = {k: fv(x) for k, x in c.f.items()}
        elif c.kind in ('list', 'dict', 'set'):
            c.ps = [fp(p) for p in c.ps]
        elif c.kind == 'mat':
            c.m = subst(c.m, mp) if isinstance(c.m, T) else c.m
        elif c.kind == 'env':
            c.v = {k: fv(x) for k, x in c.v.items()}

    def inst_piece(self, p, mp):
        if isinstance(p, It):
            return It(self.inst_value(p.v, mp))
        if isinstance(p, For):
            if any(p.k in symbols(v) for v in mp.values() if isinstance(v, T)) or p.k in mp:
                k2 = fresh_idx()
                ps = [self.inst_piece(q, {p.k: k2}) for q in p.ps]
                mp2 = {a: b for a, b in mp.items() if a is not p.k}
                return For(k2, subst(p.n, mp), [self.inst_piece(q, mp2) for q in ps])
            return For(p.k, subst(p.n, mp), [self.inst_piece(q, mp) for q in p.ps])
        if isinstance(p, If):
            c = subst(p.c, mp)
            return If(c, [self.inst_piece(q, mp) for q in p.ps])
        if isinstance(p, Perm):
            return Perm(subst(p.d, mp), [self.inst_piece(q, mp) for q in p.ps])
        return Mu(subst(p.t, mp))

    def map_pieces(self, ps, f):
        out = []
        for p in ps:
            if isinstance(p, It):
                out.append(It(f(p.v)))
            elif isinstance(p, For):
                with_ctx = self.st.ctx
                self.st.ctx = with_ctx + (p.k,) if p.k not in with_ctx else with_ctx
                try:
                    out.append(For(p.k, p.n, self.map_pieces(p.ps, f)))
                finally:
                    self.st.ctx = with_ctx
            elif isinstance(p, If):
                out.append(If(p.c, self.map_pieces(p.ps, f)))
            elif isinstance(p, Perm):
                out.append(Perm(p.d, self.map_pieces(p.ps, f)))
            else:
                out.append(Mu(mk('map', p.t)))
        return out

    def forking(self):
        '''Whether the failing outcome of a check matters here: inside try, or when a specification asks for it.'''
        return (self.st.fork or self.overrides.get('fork')) and not self.st.assume

    def require(self, c, what):
        '''A condition without which Python itself would raise: recorded and assumed.'''
        r = self.entails(c)
        if r is True:
            return
        if r is False:
            raise TargetRaise('KeyError' if what == 'key present' else 'IndexError', self.loc(), what)
        if self.forking():
            if not self.decide(c):
                e = TargetRaise('KeyError' if what == 'key present' else 'IndexError', self.loc(), what)
                e.cond = c
                raise e
            return
        self.ev('need', cond=c, what=what)
        self.add_fact(c, 'need')

    def filtered(self, ps):
        return len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], If) and \
            len(ps[0].ps[0].ps) == 1 and isinstance(ps[0].ps[0].ps[0], It)

    def short(self, n, most):
        '''The length of a part known to have at most that many elements.'''
        for j in range(most):
            if self.decide(cmp_eq(n, j)):
                return j
        return most

    def at(self, ps, i):
        '''Element at an index.'''
        ci = const_of(i)
        if ci is not None:
            ci = int(ci)
            if ci >= 0:
                pos = 0
                for j, p in enumerate(ps):
                    if isinstance(p, It):
                        if pos == ci:
                            return p.v
                        pos += 1
                        continue
                    if isinstance(p, For) and len(p.ps) == 1 and isinstance(p.ps[0], It):
                        c = sub(ci, pos)
                        rest = ps[j + 1:]
                        if not rest:
                            self.require(cmp_lt(c, p.n), 'index in range')
                            return self.inst_value(p.ps[0].v, {p.k: c})
                        if self.decide(cmp_lt(c, p.n)):
                            return self.inst_value(p.ps[0].v, {p.k: c})
                        if ci - pos <= 2:
                            pos += self.short(p.n, ci - pos)
                            continue
                    break
                else:
                    raise TargetRaise('IndexError', self.loc(), 'index out of range')
            else:
                k = -1
                for p in reversed(ps):
                    if isinstance(p, It):
                        if k == ci:
                            return p.v
                        k -= 1
                        continue
                    if isinstance(p, For) and len(p.ps) == 1 and isinstance(p.ps[0], It):
                        off = ci - k      # 0 = last of this piece
                        if len([q for q in ps if q is not p]) == -1 - k:
                            self.require(cmp_le(1 - off, p.n), 'index in range')
                        elif not self.decide(cmp_le(1 - off, p.n)):
                            if off < -2:
                                break
                            k -= self.short(p.n, -off)
                            continue
                        return self.inst_value(p.ps[0].v, {p.k: add(p.n, off - 1)})
                    break
                else:
                    raise TargetRaise('IndexError', self.loc(), 'index out of range')
        elif len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It):
            p = ps[0]
            self.require(cmp_lt(i, p.n), 'index in range')
            return self.inst_value(p.ps[0].v, {p.k: i})
        elif self.filtered(ps):
            # the i-th of the elements that satisfy a condition: some element that does
            p, q = ps[0], ps[0].ps[0]
            n = self.seqlen(ps)
            self.require(cmp_lt(i, n), 'index in range')
            j = mk('nth', self.lterm([For(p.k, p.n, [If(q.c, [It(p.k)])])]), i, kind='int')
            for f in (cmp_le(0, j), cmp_lt(j, p.n), subst(q.c, {p.k: j}), cmp_lt(0, p.n)):
                self.add_fact(f, 'need')
            return self.inst_value(q.ps[0].v, {p.k: j})
        elif len(ps) == 1 and isinstance(ps[0], Perm):
            return self.lib.unknown(self, 'permelem', [i, self.lterm(ps)])
        elif isinstance(i, T) and all(isinstance(p, It) for p in ps) and 0 < len(ps) <= 12:
            for j in range(len(ps)):
                c = cmp_eq(i, j)
                if j == len(ps) - 1:
                    self.add_fact(c, 'need')
                    return ps[j].v
                if self.decide(c):
                    return ps[j].v
        elif isinstance(i, T):
            # It* For It*: decide the zone
            pos = 0
            for j, p in enumerate(ps):
                if isinstance(p, It):
                    if j == len(ps) - 1:
                        self.require(cmp_eq(i, pos), 'index in range')
                        return p.v
                    if self.decide(cmp_eq(i, pos)):
                        return p.v
                    pos = add(pos, 1)
                elif isinstance(p, For) and len(p.ps) == 1 and isinstance(p.ps[0], It):
                    if j == len(ps) - 1:
                        return self.inst_value(p.ps[0].v, {p.k: sub(i, pos)})
                    if self.decide(cmp_lt(i, add(pos, p.n))):
                        return self.inst_value(p.ps[0].v, {p.k: sub(i, pos)})
                    pos = add(pos, p.n)
                else:
                    break
        return self.lib.unknown(self, 'index', [self.lterm(ps), i])

    def peel(self, ps, front=True):
        '''Splits off the first (last) element: (value, remaining pieces).'''
        ps = list(ps)
        while ps:
            p = ps[0] if front else ps[-1]
            rest = ps[1:] if front else ps[:-1]
            if isinstance(p, It):
                return p.v, rest
            if isinstance(p, For):
                if not rest:
                    self.require(cmp_lt(0, p.n), 'pop from a non-empty list')
                elif not self.decide(cmp_lt(0, p.n)):
                    ps = rest
                    continue
                mp = {p.k: 0 if front else sub(p.n, 1)}
                one = [self.inst_piece(q, mp) for q in p.ps]
                sh = {p.k: add(p.k, 1)} if front else {}
                if front:
                    k2 = fresh_idx()
                    more = For(k2, sub(p.n, 1), [self.inst_piece(q, {p.k: add(k2, 1)}) for q in p.ps])
                else:
                    more = For(p.k, sub(p.n, 1), p.ps)
                if const_of(more.n) == 0:
                    more = None
                ps = (one + ([more] if more else []) + rest) if front else (rest + ([more] if more else []) + one)
                continue
            if isinstance(p, If):
                if self.decide(p.c):
                    ps = (p.ps + rest) if front else (rest + p.ps)
                else:
                    ps = rest
                continue
            raise Unsupported('pop from an unknown list')
        raise TargetRaise('IndexError', self.loc(), 'pop from empty list')

    def reverse(self, ps):
        out = []
        for p in reversed(ps):
            if isinstance(p, For):
                k2 = fresh_idx()
                out.append(For(k2, p.n, self.reverse(
                    [self.inst_piece(q, {p.k: sub(sub(p.n, 1), k2)}) for q in p.ps])))
            elif isinstance(p, If):
                out.append(If(p.c, self.reverse(p.ps)))
            elif isinstance(p, Perm):
                out.append(Perm(mk('rev', p.d), p.ps))
            elif isinstance(p, Mu):
                out.append(Mu(mk('rev', p.t)))
            else:
                out.append(p)
        return out

    def slice(self, ps, lo, hi, step):
        if step not in (None, 1, -1):
            return [Mu(mk('slice', self.lterm(ps), self.vt(lo), self.vt(hi), self.vt(step)))]
        if step == -1:
            if lo is None and hi is None:
                return self.reverse(ps)
            return [Mu(mk('slice', self.lterm(ps), self.vt(lo), self.vt(hi), -1))]
        if lo is None and hi is None:
            return list(ps)
        if all(isinstance(p, It) for p in ps) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return list(ps)[lo:hi]
        out = list(ps)
        clo = const_of(lo) if lo is not None else Fr(0)
        if hi is None and clo is not None and 0 <= clo <= 4:
            for _ in range(int(clo)):
                if not self.decide(cmp_lt(0, self.seqlen(out))):
                    return []
                _, out = self.peel(out)
            return out
        chi = const_of(hi) if hi is not None else None
        if lo in (None, 0) and chi is not None and -4 <= chi < 0:
            for _ in range(-int(chi)):
                if not self.decide(cmp_lt(0, self.seqlen(out))):
                    return []
                _, out = self.peel(out, False)
            return out
        if len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It):
            p = ps[0]
            lo_ = 0 if lo is None else lo
            if self.entails(cmp_le(0, lo_)) is True and (hi is None or self.entails(cmp_le(0, hi)) is True):
                hi_ = p.n if hi is None else hi
                if hi is not None and self.entails(cmp_le(hi, p.n)) is not True:
                    hi_ = smin(hi_, p.n)
                n = sub(hi_, lo_)
                if self.entails(cmp_le(0, n)) is not True:
                    n = smax(n, 0)
                k2 = fresh_idx()
                return [For(k2, n, [self.inst_piece(q, {p.k: add(k2, lo_)}) for q in p.ps])]
        return [Mu(mk('slice', self.lterm(ps), self.vt(lo), self.vt(hi), 1))]

    # ------------------------------------------------------------ reification
    def vt(self, v, depth=0):
        '''Observable structure of a value as one term.'''
        if isinstance(v, T):
            if v in self.st.matz:
                o = self.st.heap[self.st.matz[v]]
                if o.kind in ('list', 'mat', 'inst', 'dict'):
                    return self.vt(Ref(self.st.matz[v]), depth)
            if v.kind == 'any' and TYPES.get(v) and self.type_of(v) and self.type_of(v)[0] in ('cls', 'mat'):
                w = self.mat(v)
                if isinstance(w, Ref):
                    return self.vt(w, depth)
            return self.canon(v)
        if isinstance(v, tuple):
            return mk('tuple', *[self.vt(x, depth + 1) for x in v])
        if isinstance(v, Ref):
            if depth > 12:
                return mk('deep', v.a)
            o = self.obj(v)
            if o.kind == 'mat':
                return self.canon(o.m)
            if o.kind == 'karr':
                return mk('karr', str(o.a.dtype), o.a.shape, tuple(o.a.ravel().tolist()))
            if o.kind == 'list':
                return self.lterm(o.ps, depth)
            if o.kind == 'set':
                return mk('set', self.lterm(o.ps, depth))
            if o.kind == 'dict':
                return mk('dict', self.lterm(o.ps, depth))
            if o.kind == 'inst':
                if o.cls.is_enum():
                    return mk('enum', o.cls.name, o.f.get('name', '?'))
                return mk('inst', o.cls.name, tuple(
                    (k, self.vt(x, depth + 1)) for k, x in sorted(o.f.items())
                    if (o.cls.name, k) not in self.cache_fields))
            return mk('env', v.a)
        if isinstance(v, Cls):
            return mk('class', v.name)
        if isinstance(v, Ext):
            return mk('ext', v.name)
        if isinstance(v, Func):
            free = []
            e = self.st.heap.get(v.env)
            if e is not None and e.role == 'func':
                names = {n.id for n in ast.walk(v.node) if isinstance(n, ast.Name)}
                free = [(k, self.vt(x, depth + 1)) for k, x in sorted(e.v.items())
                        if k in names and k != v.name and not isinstance(x, Func)]
            return mk('fn', v.qual, tuple(free))
        if isinstance(v, Bound):
            return mk('bound', v.func.qual, self.vt(v.self_, depth + 1))
        if isinstance(v, OpaqueFn):
            return mk('ofn', v.name)
        return v

    def lterm(self, ps, depth=0):
        out = []
        for p in ps:
            out.append(self.pterm(p, depth))
        out = [x for x in out if x is not None]
        out = list(tm.settled(merge_terms(out)))
        if len(out) == 1 and out[0].op == 'src':
            return out[0].args[0]
        return mk('list', *out)

    def pterm(self, p, depth):
        if isinstance(p, It):
            return mk('it', self.vt(p.v, depth + 1))
        if isinstance(p, For):
            if const_of(p.n) is not None and const_of(p.n) <= 0:
                return None
            parts = merge_terms([x for x in (self.pterm(q, depth + 1) for q in p.ps) if x is not None])
            if not parts:
                return None
            body = mk('seq', *parts)
            return for_term(p.k, self.canon(p.n), body)
        if isinstance(p, If):
            parts = merge_terms([x for x in (self.pterm(q, depth + 1) for q in p.ps) if x is not None])
            if p.c is True or self.redundant(p):
                return mk('seq', *parts) if len(parts) != 1 else parts[0]
            if p.c is False or not parts:
                return None
            return mk('if', self.canon(p.c), mk('seq', *parts))
        if isinstance(p, Perm):
            return mk('perm', p.d, mk('seq', *merge_terms([self.pterm(q, depth + 1) for q in p.ps])))
        return mk('mup', p.t)


def for_term(k, n, body):
    if not isinstance(k, T) or k.op != 'bv':
        bv = mk('bv', tm.bv_depth(body) + 1, kind='int')
        body = subst(body, {k: bv})
    else:
        bv = k
    if len(body.args) == 1 and body.args[0].op == 'it':
        e = body.args[0].args[0]
        if isinstance(e, T) and e.op == 'elem' and e.args[1] is bv and n is mk('len', e.args[0], kind='int'):
            return mk('src', e.args[0])
    return mk('for', bv, n, body)


def merge_terms(xs):
    '''Canonical concatenation: neighbouring generic runs and single items that continue them are merged.'''
    out = []
    for x in xs:
        if x.op == 'seq':
            flat = list(x.args)
        else:
            flat = [x]
        for y in flat:
            out.append(y)
            while len(out) >= 2 and _merge2(out):
                pass
    return out


def _as_for(x):
    if x.op == 'src':
        bv = mk('bv', 1, kind='int')
        # element kind is unknown here: only merged when the neighbour is literally an element
        return None
    return x if x.op == 'for' else None


def _merge2(out):
    a, b = out[-2], out[-1]
    fa, fb = _as_for(a), _as_for(b)
    if fa and fb:
        bv, n, body = fa.args
        bv2, n2, body2 = fb.args
        if bv is bv2 and subst(body, {bv: add(bv, n)}) is body2:
            out[-2:] = [for_term(bv, add(n, n2), body)]
            return True
    if fb and a.op == 'it':
        bv, n, body = fb.args
        prev = subst(body, {bv: -1})
        if len(prev.args) == 1 and prev.args[0] is a:
            out[-2:] = [for_term(bv, add(n, 1), subst(body, {bv: sub(bv, 1)}))]
            return True
    if fa and b.op == 'it':
        bv, n, body = fa.args
        nxt = subst(body, {bv: n})
        if len(nxt.args) == 1 and nxt.args[0] is b:
            out[-2:] = [for_term(bv, add(n, 1), body)]
            return True
    return False


def forall_t(k, n, c):
    return _quant('forall', k, n, c)


def exists_t(k, n, c):
    return _quant('exists', k, n, c)


def _quant(op, k, n, c):
    if c is True:
        return True if op == 'forall' else cmp_lt(0, n)
    if c is False:
        return cmp_le(n, 0) if op == 'forall' else False
    if k not in symbols(c):
        e = cmp_le(n, 0)
        return lor(e, c) if op == 'forall' else land(lnot(e), c)
    bv = k
    if k.op != 'bv':
        bv = mk('bv', tm.bv_depth(c) + 1, kind='int')
        c = subst(c, {k: bv})
    return mk(op, bv, n, c, kind='bool')


def smin(*xs):
    return _mm('min', xs)


def smax(*xs):
    return _mm('max', xs)


def _mm(op, xs):
    cs = [const_of(x) for x in xs if const_of(x) is not None]
    ts = []
    for x in xs:
        if const_of(x) is None:
            for y in (x.args if isinstance(x, T) and x.op == op else (x,)):
                c = const_of(y)
                if c is not None:
                    cs.append(c)
                elif y not in ts:
                    ts.append(y)
    if cs:
        c = min(cs) if op == 'min' else max(cs)
        c = int(c) if c.denominator == 1 else c
        if not ts:
            return c
        ts = ts + [c]
    ts = sorted(ts, key=lambda x: (0, x.id) if isinstance(x, T) else (1, 0))
    if len(ts) == 1:
        return ts[0]
    kind = 'int' if all((isinstance(x, T) and x.kind == 'int') or isinstance(x, int) for x in ts) else 'real'
    return mk(op, *ts, kind=kind)


from . import evalx  # noqa: E402  (adds the statement and expression evaluation)
evalx.install(Interp)
