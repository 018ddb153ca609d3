'''
Loops over inputs of unknown length: one generic iteration is analysed from a generalised head state, the cells it
changes are described by recurrences, and the recurrences are solved (sums, ordered products, flags, appended and
dropped list runs, last values).  What has no closed form becomes an explicit unknown.
'''
import os
from . import terms as tm
from .terms import (T, mk, add, sub, mul, neg, const_of, cmp_le, cmp_lt, cmp_eq, lnot, land, lor, is_num_const,
                    subst, symbols, cat)
from .dom import *

_n = [0]
MISSING = object()


def newname():
    _n[0] += 1
    return _n[0]


# ------------------------------------------------------------------------------------------------ entry point
def iterate(I, ps, run, node):
    for p in list(ps):
        if isinstance(p, It):
            run(p.v)
        elif isinstance(p, If):
            if I.decide(p.c):
                iterate(I, p.ps, run, node)
        elif isinstance(p, For):
            for_piece(I, p, run, node)
        elif isinstance(p, Perm):
            perm_piece(I, p, run, node)
        else:
            k = fresh_idx()
            for_piece(I, For(k, mk('len', p.t, kind='int'), [It(mk('elem', p.t, k))]), run, node)


def for_piece(I, p, run, node):
    n = I.canon(p.n)
    c = const_of(n)
    if c is None:
        lo, hi = I.interval(tm.to_poly(n)) if isinstance(n, T) else (None, None)
        if lo is not None and lo == hi:
            c = lo
    if c is not None and c <= 70:
        for j in range(int(c)):
            for q in [I.inst_piece(x, {p.k: j}) for x in p.ps]:
                iterate(I, [q], run, node)
        return
    if I.entails(cmp_le(n, 0)) is True:
        return
    k = p.k
    ps = p.ps
    if k in I.st.ctx or k.op != 'idx':
        k = fresh_idx()
        ps = [I.inst_piece(q, {p.k: k}) for q in p.ps]
    Loop(I, k, n, lambda: iterate(I, ps, run, node), node,
         lambda j: iterate(I, [I.inst_piece(q, {k: j}) for q in ps], run, node),
         lambda k2: [I.inst_piece(q, {k: add(k2, 1)}) for q in ps], run).go()


def perm_piece(I, p, run, node):
    '''A randomly permuted block: list cells keep the permutation, other cells must not depend on the order.'''
    st = I.st
    before = {a: list(o.ps) for a, o in st.heap.items() if o.kind == 'list'}
    mats = {a: o.m for a, o in st.heap.items() if o.kind == 'mat'}
    iterate(I, p.ps, run, node)
    for a, ps in before.items():
        o = I.st.heap.get(a)
        if o is None or o.kind != 'list':
            continue
        n = len(ps)
        if len(o.ps) > n and same_ps(o.ps[:n], ps):
            o.ps = ps + [Perm(p.d, o.ps[n:])]
        elif len(o.ps) > n and same_ps(o.ps[len(o.ps) - n:], ps):
            o.ps = [Perm(mk('rev', p.d), o.ps[:len(o.ps) - n])] + ps
        elif not same_ps(o.ps, ps):
            o.ps = [Mu(mk('mu', newname()))]
    I.ev('perm_loop', d=p.d)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a is b or (not isinstance(a, T) and not isinstance(b, T) and a == b and type(a) == type(b)):
        return a
    if isinstance(c, T) and c.op == 'not':
        return ite(c.args[0], b, a)
    kind = 'any'
    ka, kb = kindof(a), kindof(b)
    if ka == kb:
        kind = ka
    elif ka in tm.NUMK and kb in tm.NUMK:
        kind = 'real' if 'num' not in (ka, kb) else 'num'
    if kind == 'bool':
        return lor(land(c, a), land(lnot(c), b))
    return mk('ite', c, a, b, kind=kind)


def kindof(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if is_num_const(v):
        return 'num' if isinstance(v, complex) else 'real'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, T):
        return v.kind
    return None


# ------------------------------------------------------------------------------------------------ heads
class Leaf:
    def __init__(self, kind, pre, head, where):
        self.kind, self.pre, self.head, self.where = kind, pre, head, where
        self.posts = []
        self.sol = None         # function m -> value after m iterations


class Head:
    '''Generalised state at a loop head: the cells that change, as trees of leaves.'''

    def __init__(self, I):
        self.I = I
        self.cells = {}         # (addr, slot) -> tree
        self.memo = {}
        self.known = {}         # what elements of generalised lists are

    def gen(self, pre, post, where, spre, spost):
        '''Tree describing both values; raises TypeChange when there is no common shape.'''
        I = self.I
        if same(pre, post):
            return ('keep', pre)
        if isinstance(pre, tuple) and isinstance(post, tuple) and len(pre) == len(post):
            return ('tuple', [self.gen(a, b, where + (i,), spre, spost) for i, (a, b) in enumerate(zip(pre, post))])
        if isinstance(pre, Ref) and isinstance(post, Ref):
            key = (pre.a, post.a)
            if key in self.memo:
                return self.memo[key]
            a, b = spre.heap[pre.a], spost.heap[post.a]
            if a.kind == b.kind == 'inst' and a.cls is b.cls and isinstance(a.cls, Cls) and not a.cls.is_enum():
                t = ['inst', a.cls, {}, pre, None]
                self.memo[key] = t
                for f in sorted(set(a.f) | set(b.f)):
                    if f not in a.f or f not in b.f:
                        raise TypeChange(where)
                    t[2][f] = self.gen(a.f[f], b.f[f], where + (f,), spre, spost)
                return t
            if a.kind == b.kind and a.kind in ('list', 'mat', 'dict', 'set'):
                t = ['box', a.kind, None, pre, None]
                self.memo[key] = t
                t[2] = self.content(a, b, where + ('*',), spre, spost)
                return t
            raise TypeChange(where)
        ka, kb = kindof(pre), kindof(post)
        if ka in tm.NUMK and kb in tm.NUMK:
            kind = 'int' if ka == kb == 'int' else ('num' if 'num' in (ka, kb) else 'real')
            return ('leaf', Leaf('scalar', pre, mk('lv', newname(), kind=kind), where))
        if ka == kb and ka in ('bool', 'str'):
            return ('leaf', Leaf(ka, pre, mk('lv', newname(), kind=ka), where))
        tys = [self.maybe(v) for v in (pre, post)]
        if None not in tys:
            # a variable that is None for a while
            tys = [t for t in tys if t != ('opt',)]
            if tys and all(t == tys[0] for t in tys):
                lf = Leaf('any', pre, I.generic(mk('lv', newname()), ('opt', tys[0])), where)
                lf.ty = tys[0]
                if post is not None and kindof(post) != 'any' and not (
                        isinstance(post, T) and any(y.op in ('lv', 'idx', 'lvm', 'mu') for y in tm.subterms(post))) and (
                        pre is None or kindof(pre) == 'any' and
                        self.at_most(pre, lf, post, spre) is True):
                    lf.is_ = post       # None or this value
                return ('leaf', lf)
        if ka == kb == 'any':
            return ('leaf', Leaf('any', pre, mk('lv', newname(), kind='any'), where))
        raise TypeChange(where)

    def at_most(self, v, lf, post, st):
        '''Whether the value is None or the given one.'''
        I = self.I
        save, I.st = I.st, st
        try:
            b = self.one_of(v, lf, post)
            return I.entails(b) is True or b in st.facts
        finally:
            I.st = save

    def one_of(self, v, lf, post):
        k = {'int': 'int', 'float': 'real', 'str': 'str', 'bool': 'bool'}[lf.ty[0]]
        x = mk(v.op, *v.args, kind=k)
        if k == 'bool':
            eq = x if post is True else lnot(x) if post is False else mk('eq', x, post, kind='bool')
        else:
            eq = mk('eq', x, post, kind='bool') if k == 'str' else cmp_eq(x, post)
        return lor(mk('isnone', v, kind='bool'), eq)

    def maybe(self, v):
        '''The type of a value that is not None, ('opt',) for None.'''
        if v is None:
            return ('opt',)
        k = kindof(v)
        if k == 'any':
            from .interp import TYPES
            ty = TYPES.get(v)
            return ty[1] if ty and ty[0] == 'opt' else None
        return {'int': ('int',), 'real': ('float',), 'str': ('str',), 'bool': ('bool',)}.get(k)

    def content(self, a, b, where, spre, spost):
        I = self.I
        if a.kind == 'mat':
            return ('leaf', Leaf('mat', a.m, tm.matsym('lv%d' % newname(), unitary=tm.unitary_mat(a.m) and
                                                       tm.unitary_mat(b.m)) if isinstance(a.m, T) else None, where))
        nm = mk('lv', newname())
        if a.kind == 'list' and len(b.ps) == 1 and isinstance(b.ps[0], Perm):
            # a list that iterations only reorder: the order is the state
            d0, body = (a.ps[0].d, a.ps[0].ps) if len(a.ps) == 1 and isinstance(a.ps[0], Perm) else (IDPERM, a.ps)
            if same_ps(body, b.ps[0].ps):
                leaf = Leaf('perm', d0, nm, where)
                leaf.body = list(body)
                return ('leaf', leaf)
        leaf = Leaf(a.kind, list(a.ps), nm, where)
        leaf.proto = (list(a.ps), list(b.ps))
        if a.kind == 'dict':
            leaf.et = (join_types(elem_type(I, keys_of(a.ps), spre), elem_type(I, keys_of(b.ps), spost)),
                       join_types(elem_type(I, vals_of(a.ps), spre), elem_type(I, vals_of(b.ps), spost)))
        else:
            leaf.et = join_types(elem_type(I, a.ps, spre), elem_type(I, b.ps, spost))
        return ('leaf', leaf)

    def value(self, t, sol, st, fresh_objs):
        '''The concrete value of a tree: at the head (sol None) or after m iterations.'''
        I = self.I
        if t[0] == 'keep':
            return t[1]
        if t[0] == 'tuple':
            return tuple(self.value(x, sol, st, fresh_objs) for x in t[1])
        if t[0] == 'leaf':
            return t[1].head if sol is None else t[1].sol(sol)
        if id(t) in fresh_objs:
            return fresh_objs[id(t)]
        save = I.st
        I.st = st
        try:
            if t[0] == 'inst':
                pre = st.heap[t[3].a]
                r = I.ref(Inst(t[1]))
                st.heap[r.a].ext = pre.ext
                fresh_objs[id(t)] = r
                for f, x in t[2].items():
                    st.heap[r.a].f[f] = self.value(x, sol, st, fresh_objs)
                return r
            pre = st.heap[t[3].a]
            o = pre.clone()
            r = I.ref(o)
            st.heap[r.a].ext = pre.ext
            fresh_objs[id(t)] = r
            self.set_content(o, t[2], sol, st)
            if o.kind == 'mat':
                o.base = None
            return r
        finally:
            I.st = save

    def set_content(self, o, leaf, sol, st):
        lf = leaf[1]
        if sol is not None:
            v = lf.sol(sol)
            if lf.kind == 'perm':
                o.ps = ordered(v, lf.body)
            elif o.kind == 'mat':
                o.m = v
            else:
                o.ps = v
            return
        if lf.kind == 'perm':
            o.ps = [Perm(lf.head, list(lf.body))]
            return
        if o.kind == 'mat':
            o.m = lf.head
            return
        o.ps = head_pieces(self.I, lf, o.kind, st)

    def leaves(self):
        out, seen = [], set()

        def walk(t):
            if id(t) in seen:
                return
            seen.add(id(t))
            if t[0] == 'leaf':
                out.append(t[1])
            elif t[0] == 'tuple':
                for x in t[1]:
                    walk(x)
            elif t[0] == 'inst':
                for x in t[2].values():
                    walk(x)
            elif t[0] == 'box':
                walk(t[2])
        for t in self.cells.values():
            walk(t)
        return out


IDPERM = mk('idperm')


def ordered(v, body):
    '''The pieces in the order v, which may be conditional.'''
    if v is IDPERM:
        return list(body)
    if isinstance(v, T) and v.op == 'ite':
        c, x, y = v.args
        return [If(c, ordered(x, body)), If(lnot(c), ordered(y, body))]
    return [Perm(v, list(body))]


class TypeChange(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (T, Ref)) or isinstance(b, (T, Ref)):
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Bound) and isinstance(b, Bound):
        return a.func is b.func and same(a.self_, b.self_)
    if isinstance(a, Func) and isinstance(b, Func):
        return a.node is b.node and a.env == b.env
    try:
        return type(a) is type(b) and a == b
    except Exception:
        return False


def same_ps(a, b):
    return len(a) == len(b) and all(x is y or same_piece(x, y) for x, y in zip(a, b))


def same_piece(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, It):
        return same(x.v, y.v)
    if isinstance(x, For):
        return x.k is y.k and x.n is y.n and same_ps(x.ps, y.ps)
    if isinstance(x, If):
        return x.c is y.c and same_ps(x.ps, y.ps)
    if isinstance(x, Perm):
        return x.d is y.d and same_ps(x.ps, y.ps)
    return x.t is y.t


def elem_type(I, ps, st):
    '''Common type descriptor of the items of some pieces.'''
    from .interp import TYPES
    tys = set()

    def walk(ps):
        for p in ps:
            if isinstance(p, It):
                v = p.v
                if isinstance(v, Ref):
                    o = st.heap.get(v.a)
                    if o is None:
                        tys.add(('any',))
                    elif o.kind == 'inst' and isinstance(o.cls, Cls):
                        tys.add(('cls', o.cls))
                    elif o.kind == 'mat':
                        tys.add(('mat',))
                    elif o.kind == 'list':
                        tys.add(('list', ('any',)))
                    else:
                        tys.add(('any',))
                elif isinstance(v, T) and v.kind == 'any':
                    tys.add(TYPES.get(v) or ('any',))
                else:
                    tys.add({'int': ('int',), 'real': ('float',), 'num': ('float',), 'str': ('str',),
                             'bool': ('bool',)}.get(kindof(v), ('any',)))
            elif isinstance(p, (For, If, Perm)):
                walk(p.ps)
    walk(ps)
    return tys


def join_types(a, b):
    tys = a | b
    if not tys:
        return None
    if len(tys) == 1:
        return set(tys).pop()
    if tys and tys <= {('int',), ('float',)}:
        return ('float',)
    return ('any',)


def head_pieces(I, lf, kind, st):
    a, b = lf.proto
    n = mk('len', lf.head, kind='int')
    if not hasattr(lf, 'k'):
        lf.k = fresh_idx()
    k = lf.k
    if kind == 'dict':
        key = I.generic(mk('key', lf.head, k), lf.et[0] or ('any',))
        val = I.generic(mk('val', lf.head, k), lf.et[1] or ('any',))
        return [For(k, n, [It((key, val))])]
    e = I.generic(mk('elem', lf.head, k), lf.et or ('any',))
    return [For(k, n, [It(e)])]


def keys_of(ps):
    return [It(p.v[0]) for p in flat_items(ps)]


def vals_of(ps):
    return [It(p.v[1]) for p in flat_items(ps)]


def flat_items(ps):
    out = []
    for p in ps:
        if isinstance(p, It):
            out.append(p)
        elif isinstance(p, (For, If, Perm)):
            out += flat_items(p.ps)
    return out


def is_src(p, nm):
    '''The unchanged head list.'''
    if not isinstance(p, For) or not (isinstance(p.n, T) and p.n.op == 'len' and p.n.args[0] is nm):
        return False
    if len(p.ps) != 1 or not isinstance(p.ps[0], It):
        return False
    v = p.ps[0].v
    if isinstance(v, tuple):
        return all(isinstance(x, T) and x.op in ('key', 'val') and x.args[0] is nm and x.args[1] is p.k for x in v)
    return isinstance(v, T) and v.op == 'elem' and v.args[0] is nm and v.args[1] is p.k


def drop_of(p, nm):
    '''The head list without its first / last element.'''
    if not isinstance(p, For) or len(p.ps) != 1 or not isinstance(p.ps[0], It):
        return None
    v = p.ps[0].v
    if not (isinstance(v, T) and v.op == 'elem' and v.args[0] is nm):
        return None
    d = const_of(sub(mk('len', nm, kind='int'), p.n))
    off = const_of(sub(v.args[1], p.k))
    if d is None or off is None or d <= 0:
        return None
    if off == 0:
        return ('back', int(d))
    if off == d:
        return ('front', int(d))
    return None


# ------------------------------------------------------------------------------------------------ the loop
class Loop:
    def __init__(self, I, k, n, body, node, at, rest, run):
        self.I, self.k, self.n, self.body, self.node = I, k, n, body, node
        self.at, self.rest, self.run = at, rest, run

    def go(self):
        I = self.I
        I.stats['loops'] += 1
        try:
            outs, head, st1 = self.stabilise()
        except TypeChange:
            return self.peel()
        if self.wants_peel(outs):
            return self.peel()
        self.finish(outs, head, st1)

    def peel(self):
        I = self.I
        if getattr(self, 'peeled', False):
            raise Unsupported('loop state has no common shape')
        if not I.decide(cmp_lt(0, self.n)):
            return
        self.at(0)
        k2 = fresh_idx()
        ps = self.rest(k2)
        n2 = I.canon(sub(self.n, 1))
        if const_of(n2) is not None and const_of(n2) <= 0 or I.entails(cmp_le(n2, 0)) is True:
            return
        L = Loop(I, k2, n2, lambda: iterate(I, ps, self.run, self.node), self.node, None, None, self.run)
        L.peeled = True
        L.go()

    def wants_peel(self, outs):
        if getattr(self, 'peeled', False):
            return False
        for o in outs:
            for f in o.newfacts:
                if f.op in ('eq0', 'le', 'lt') and isinstance(f.args[0], T) and symbols(f.args[0]) == {self.k}:
                    return True
        return False

    # ---------------------------------------------------------------- generic iteration
    def stabilise(self, head=None):
        I = self.I
        S0 = I.st
        head = head or Head(I)
        for rnd in range(8):
            st1 = S0.clone()
            st1.ctx = S0.ctx + (self.k,)
            st1.label, st1.ownpath = S0.label, S0.ownpath
            self.apply(head, st1, None)
            st1.eqs = {**st1.eqs, **head.known}
            save, I.st = I.st, st1
            try:
                I.add_fact(cmp_le(0, self.k), 'loop')
                I.add_fact(cmp_lt(self.k, self.n), 'loop')
                for lf in head.leaves():
                    if getattr(lf, 'is_', None) is not None:
                        I.add_fact(head.one_of(lf.head, lf, lf.is_), 'loop')
            finally:
                I.st = save
            st1.events = []
            base = dict(st1.facts)
            outs = I.explore(self.body, st1)
            live = []
            for o in outs:
                if o.kind == 'unsup':
                    raise Unsupported(f'loop body: {o.v}')
                o.newfacts = {f: og for f, og in o.st.facts.items() if f not in base}
                live.append(o)
            if not rnd and not head.cells and not getattr(self, 'peeled', False) and self.flips(S0, live):
                raise TypeChange('flag')
            grew = False
            for _ in range(4):
                # again for what a cell found on a later path means for an earlier one
                more = False
                for o in live:
                    if o.kind in ('ret', 'break', 'return'):
                        more |= self.diff(head, S0, st1, o.st)
                grew |= more
                if not more:
                    break
            if not grew:
                return live, head, st1
        raise Unsupported('loop does not stabilise')

    def flips(self, S0, live):
        '''A flag that the first iteration always turns over: the rest of the iterations see the other value.'''
        ends = [o.st for o in live if o.kind == 'ret']
        if not ends:
            return False
        for a, o0 in S0.heap.items():
            if o0.kind == 'env':
                for nm, v in o0.v.items():
                    if isinstance(v, bool) and all(
                            e.heap.get(a) is not None and e.heap[a].v.get(nm, MISSING) is (not v) for e in ends):
                        return True
        return False

    def apply(self, head, st, sol):
        objs = {}
        for (a, slot), t in head.cells.items():
            o = st.heap[a]
            if slot[0] == 'v':
                o.v[slot[1]] = head.value(t, sol, st, objs)
            elif slot[0] == 'f':
                o.f[slot[1]] = head.value(t, sol, st, objs)
            else:
                head.set_content(o, t, sol, st)
                if o.kind == 'mat' and sol is None and not isinstance(o.base, tuple):
                    pass

    def owned(self, o):
        return bool(o.own) and self.k in o.own

    def diff(self, head, S0, st1, st2):
        '''Adds the cells that the iteration changed and that are not generalised yet.'''
        grew = False
        for a, o0 in list(S0.heap.items()):
            o1, o2 = st1.heap.get(a), st2.heap.get(a)
            if o2 is None or self.owned(o0):
                continue
            if o0.kind == 'env':
                for nm in set(o1.v) | set(o2.v):
                    x1, x2 = o1.v.get(nm, MISSING), o2.v.get(nm, MISSING)
                    if (a, ('v', nm)) in head.cells:
                        grew |= self.retype(head.cells[(a, ('v', nm))], x2, st2)
                        continue
                    if same(x1, x2):
                        continue
                    if x1 is MISSING or x2 is MISSING or (a, nm) in self.temps():
                        continue
                    try:
                        t = head.gen(o0.v[nm], x2, (a, nm), S0, st2)
                    except TypeChange:
                        if self.is_temp(a, nm, st1):
                            self.temps().add((a, nm))
                            continue
                        raise
                    head.cells[(a, ('v', nm))] = t
                    grew = True
            elif o0.kind == 'inst':
                if o1.f is o2.f:
                    continue
                for nm in set(o1.f) | set(o2.f):
                    x1, x2 = o1.f.get(nm, MISSING), o2.f.get(nm, MISSING)
                    if (a, ('f', nm)) in head.cells:
                        grew |= self.retype(head.cells[(a, ('f', nm))], x2, st2)
                        continue
                    if same(x1, x2):
                        continue
                    if x1 is MISSING or x2 is MISSING:
                        raise TypeChange()
                    head.cells[(a, ('f', nm))] = head.gen(o0.f[nm], x2, (a, nm), S0, st2)
                    grew = True
            elif o0.kind == 'mat':
                if o1.m is not o2.m and (a, ('m',)) not in head.cells:
                    head.cells[(a, ('m',))] = head.content(o0, o2, (a, '*'), S0, st2)
                    grew = True
            elif o0.kind in ('list', 'dict', 'set'):
                if (a, ('ps',)) in head.cells:
                    grew |= self.retype_obj(head.cells[(a, ('ps',))], o2, st2)
                elif not same_ps(o1.ps, o2.ps):
                    head.cells[(a, ('ps',))] = head.content(o0, o2, (a, '*'), S0, st2)
                    grew = True
        return grew

    def retype(self, t, v, st, depth=0):
        '''Widens the element types of generalised lists by what an iteration put in.'''
        if depth > 6:
            return False
        if t[0] == 'leaf' and getattr(t[1], 'is_', None) is not None:
            lf = t[1]
            if v is not None and v is not lf.head and v is not lf.pre and not same(v, lf.is_):
                lf.is_ = None
                return True
        if t[0] == 'tuple' and isinstance(v, tuple):
            return any([self.retype(x, y, st, depth + 1) for x, y in zip(t[1], v)])
        if not isinstance(v, Ref):
            return False
        o = st.heap.get(v.a)
        if o is None:
            return False
        if t[0] == 'inst' and o.kind == 'inst':
            return any([self.retype(x, o.f[f], st, depth + 1) for f, x in t[2].items() if f in o.f])
        if t[0] == 'box' and o.kind == t[1]:
            return self.retype_obj(t[2], o, st)
        return False

    def retype_obj(self, t, o, st):
        lf = t[1] if t[0] == 'leaf' else None
        if lf is None or not hasattr(lf, 'et') or o.kind not in ('list', 'set', 'dict') or o.kind != lf.kind:
            return False

        def old(e):
            return set() if e is None else {e}
        if o.kind == 'dict':
            new = (join_types(old(lf.et[0]), elem_type(self.I, keys_of(o.ps), st)),
                   join_types(old(lf.et[1]), elem_type(self.I, vals_of(o.ps), st)))
        else:
            new = join_types(old(lf.et), elem_type(self.I, o.ps, st))
        if new == lf.et:
            return False
        lf.et = new
        return True

    def temps(self):
        if not hasattr(self, '_temps'):
            self._temps = set()
        return self._temps

    def is_temp(self, a, nm, st1):
        '''A variable that every iteration writes before it reads: detected by poisoning is costly, so only plain
        loop temporaries (assigned in the body, not read before) are accepted.'''
        import ast
        body = getattr(self.node, 'body', None)
        if not isinstance(body, list):
            return False
        if isinstance(self.node, ast.For) and any(isinstance(x, ast.Name) and x.id == nm
                                                  for x in ast.walk(self.node.target)):
            return True
        return first_use_is_store(body, nm)

    # ---------------------------------------------------------------- results
    def finish(self, outs, head, st1):
        I, k, n = self.I, self.k, self.n
        S0 = I.st
        # path conditions
        rets, exits = [], []
        for o in outs:
            br = [f for f, og in o.newfacts.items() if og == 'branch']
            o.cond = land(*br) if br else True
            o.req = [f for f, og in o.newfacts.items() if og in ('assert', 'need')]
            (rets if o.kind == 'ret' else exits).append(o)
        # simplify complementary conditions
        total = lor(*[o.cond for o in rets]) if rets else False
        if not exits:
            total = True
        if len(rets) == 1 and not exits:
            rets[0].cond = True
        # read the new leaf values
        leaves = head.leaves()
        for lf in leaves:
            lf.posts = []
        for o in rets:
            o.mism = self.read(head, o.st)
        self.solve(leaves, rets, st1)
        sub_k = self.head_map(leaves, k)
        # conditions in terms of k only
        for o in outs:
            o.condk = self.subst_heads(o.cond, leaves, k)
            o.reqk = [self.subst_heads(f, leaves, k) for f in o.req]
            o.facts_b = [self.subst_heads(f, leaves, k) for f, og in o.newfacts.items()]
        # exits
        for o in exits:
            if o.kind == 'raise':
                c = exists_(I, k, n, o.condk)
                if I.decide(c):
                    I.ev('loop_raise', etype=o.v.etype, cond=o.condk, k=k, n=n, at=o.v.loc)
                    self.loop_event(outs, head, leaves)
                    raise o.v
        stops = [o for o in exits if o.kind in ('break', 'return')]
        if stops:
            self.early(stops, rets, head, leaves, outs)
            return
        self.commit(I.st, rets, head, leaves, n, outs)

    def early(self, stops, rets, head, leaves, outs):
        I, k, n = self.I, self.k, self.n
        c = lor(*[o.condk for o in stops])
        ex = exists_(I, k, n, c)
        if not I.decide(ex):
            self.commit(I.st, rets, head, leaves, n, outs)
            return
        w = mk('idx', ('w', self.node.lineno if hasattr(self.node, 'lineno') else 0, k.id, tuple(
            x.id for x in I.st.ctx)), kind='int')
        I.add_fact(cmp_le(0, w), 'branch')
        I.add_fact(cmp_lt(w, n), 'branch')
        I.add_fact(forall_(I, k, w, lnot(c)), 'branch')
        if len(stops) > 1:
            i = 0
            while i < len(stops) - 1 and not I.decide(subst(stops[i].condk, {k: w})):
                i += 1
            o = stops[i]
        else:
            o = stops[0]
        self.commit(I.st, rets, head, leaves, w, outs, loop_ev=True)
        for f in o.facts_b:
            I.add_fact(subst(f, {k: w}), 'branch')
        # run the stopping iteration itself on the committed state
        self.at_value(w)
        raise Infeasible

    def at_value(self, w):
        if self.at is None:
            raise Unsupported('early exit after a peeled iteration')
        self.at(w)

    def read(self, head, st):
        '''Collects, for one outcome, the value of every leaf at the end of the iteration.'''
        seen = set()

        def walk(t, v):
            if t[0] == 'keep':
                if not same(t[1], v):
                    raise Unsupported('loop cell changes shape')
                return
            if t[0] == 'leaf':
                if t[1].kind == 'perm':
                    if len(v) != 1 or not isinstance(v[0], Perm) or not same_ps(v[0].ps, t[1].body):
                        raise Unsupported('loop cell changes shape')
                    v = v[0].d
                t[1].posts.append(v)
                return
            if t[0] == 'tuple':
                if not isinstance(v, tuple) or len(v) != len(t[1]):
                    raise Unsupported('loop cell changes shape')
                for x, y in zip(t[1], v):
                    walk(x, y)
                return
            if id(t) in seen:
                return
            seen.add(id(t))
            if not isinstance(v, Ref):
                raise Unsupported('loop cell changes shape')
            o = st.heap[v.a]
            if t[0] == 'inst':
                if o.kind != 'inst' or o.cls is not t[1]:
                    raise Unsupported('loop cell changes class')
                for f, x in t[2].items():
                    walk(x, o.f.get(f))
                return
            if o.kind != t[1]:
                raise Unsupported('loop cell changes class')
            walk(t[2], o.m if o.kind == 'mat' else list(o.ps))
        for (a, slot), t in head.cells.items():
            o = st.heap[a]
            if slot[0] == 'v':
                walk(t, o.v.get(slot[1]))
            elif slot[0] == 'f':
                walk(t, o.f.get(slot[1]))
            else:
                walk(t, o.m if o.kind == 'mat' else list(o.ps))

    # ---------------------------------------------------------------- recurrences
    def head_syms(self, leaves):
        s = set()
        for lf in leaves:
            h = lf.head
            if isinstance(h, T):
                s |= symbols(h)
        return s

    def solve(self, leaves, rets, st1):
        I, k = self.I, self.k
        pending = list(leaves)
        conds = [o.cond for o in rets]
        self.rets = rets
        if not rets:
            for lf in leaves:
                lf.sol = (lambda v: (lambda m: v))(lf.pre)
            return
        progress = True
        while pending and progress:
            progress = False
            for lf in list(pending):
                others = self.head_syms([x for x in pending if x is not lf])
                own = self.head_syms([lf])
                try:
                    s = self.solve_leaf(lf, rets, conds, leaves, others, own)
                except Unsupported:
                    s = None
                if s is not None:
                    lf.sol = s
                    pending.remove(lf)
                    progress = True
        for lf in pending:
            I.ev('unknown_loop', where=str(lf.where[-1]), what=lf.kind)
            tag = mk('mu', newname(), 'loop', lf.kind)
            if lf.kind == 'mat':
                lf.sol = lambda m, t=tag: tm.matsym(mk('mu', t, m))
            elif lf.kind in ('list', 'set', 'dict'):
                lf.sol = lambda m, t=tag: [Mu(mk('mu', t, m))]
            else:
                kd = lf.head.kind
                lf.sol = lambda m, t=tag, kd=kd: mk('mu', t, m, kind=kd)

    def solved_subst(self, v, leaves):
        '''Replaces heads of solved leaves by their value after k iterations.'''
        return self.subst_heads(v, [l for l in leaves if l.sol is not None], self.k)

    def subst_heads(self, v, leaves, m):
        if not isinstance(v, (T, tuple)):
            return v
        syms = symbols(v)
        if not syms:
            return v
        mp = {}
        for lf in leaves:
            if lf.sol is None or not isinstance(lf.head, T):
                continue
            if lf.kind in ('list', 'dict', 'set'):
                h = lf.head
                if h not in syms and not any(h in symbols(a) for x in syms for a in x.args if isinstance(a, T)):
                    continue
                ps = lf.sol(m)
                for t in list(tm.subterms(v)):
                    if t.op == 'len' and t.args[0] is h:
                        mp[t] = self.I.seqlen(ps)
                    elif t.op in ('elem', 'key', 'val') and t.args[0] is h:
                        try:
                            x = quiet_at(self.I, ps, t.args[1])
                        except (Unsupported, TargetRaise):
                            x = None
                        if isinstance(x, tuple) and t.op in ('key', 'val'):
                            x = x[0 if t.op == 'key' else 1]
                        if x is not None:
                            mp[t] = self.I.vt(x) if not isinstance(x, T) else x
                    elif t is h:
                        pass
                if h in syms:
                    mp[h] = self.I.lterm(ps)
            else:
                hs = symbols(lf.head)
                if hs & syms:
                    val = lf.sol(m)
                    if lf.kind == 'mat':
                        (w, c), = tm.to_mat(lf.head).items()
                        mp[w[0]] = val
                    else:
                        mp[lf.head] = val
        return subst(v, mp) if mp else v

    def head_map(self, leaves, m):
        return None

    def solve_leaf(self, lf, rets, conds, leaves, others, own):
        I, k = self.I, self.k
        posts = [lf.posts[i] for i in range(len(rets))]
        if lf.kind in ('list', 'dict', 'set'):
            return self.solve_list(lf, posts, conds, leaves, others)
        h = lf.head
        posts = [self.solved_subst(p, leaves) for p in posts]
        cs = [self.solved_subst(c, leaves) for c in conds]
        if all(p is h for p in posts):
            return lambda m: lf.pre
        if isinstance(h, T):
            mp = {h: lf.pre}
            if lf.kind == 'mat':
                (hw, _), = tm.to_mat(h).items()
                mp = {hw[0]: lf.pre}
            if all(same(subst(p, mp) if isinstance(p, (T, tuple)) else p, lf.pre) for p in posts):
                return lambda m: lf.pre
        for x in posts + cs:
            if isinstance(x, (T, tuple)) and symbols(x) & others:
                return None
        csym = set()
        for c in cs:
            csym |= symbols(c)
        if lf.kind == 'bool':
            return self.solve_bool(lf, posts, cs, own)
        if csym & own:
            return None
        if lf.kind == 'scalar':
            ds = []
            for p in posts:
                d = sub(p, h)
                if isinstance(d, T) and symbols(d) & own:
                    ds = None
                    break
                ds.append(d)
            if ds is not None:
                if len(ds) == 1:
                    tot = ds[0]
                else:
                    tot = 0
                    for c, d in zip(cs, ds):
                        tot = add(tot, mul(d, count(c)))
                pre = lf.pre
                return lambda m: add(pre, self.lib_sum(k, m, tot))
            if len(posts) == 1 and isinstance(posts[0], T):
                # multiplicative
                p = posts[0]
                r = tm.div(p, h) if not is_zero(h) else None
                if r is not None and not (symbols(r) & own if isinstance(r, T) else False):
                    pre = lf.pre
                    if not isinstance(r, T) or k not in symbols(r):
                        return lambda m: mul(pre, tm.power(r, m))
                    bv = mk('bv', tm.bv_depth(r) + 1, kind='int')
                    rb = subst(r, {k: bv})
                    return lambda m: mul(pre, mk('nprod', bv, m, rb, kind=h.kind))
                # running minimum / maximum
                if p.op in ('min', 'max') and h in p.args:
                    rest = [x for x in p.args if x is not h]
                    if len(rest) == 1 and not (symbols(rest[0]) & own if isinstance(rest[0], T) else False):
                        bv = mk('bv', tm.bv_depth(rest[0]) + 1, kind='int')
                        e = subst(rest[0], {k: bv})
                        from .interp import smin, smax
                        f = smin if p.op == 'min' else smax
                        return lambda m: f(lf.pre, mk('a' + p.op, bv, m, e, kind=p.kind))
            return self.last(lf, posts, cs, own)
        if lf.kind == 'str':
            if len(posts) == 1 and isinstance(posts[0], T) and posts[0].op == 'cat':
                args = posts[0].args
                if args[0] is h and not any(symbols(x) & own for x in args[1:] if isinstance(x, T)):
                    body = cat(*args[1:])
                    return lambda m: cat(lf.pre, tm.join('', I.lterm([For(k, m, [It(body)])])))
            return self.last(lf, posts, cs, own)
        if lf.kind == 'mat':
            if len(posts) == 1:
                r = mat_rec(h, posts[0], own, k, lf.pre)
                if r is not None:
                    return r
            return self.last(lf, posts, cs, own)
        return self.last(lf, posts, cs, own)

    def lib_sum(self, k, m, tot):
        return self.I.lib.sumk(k, m, tot)

    def last(self, lf, posts, cs, own):
        '''Every iteration overwrites the value.'''
        if len(posts) == 1 and isinstance(posts[0], T) and posts[0].op == 'ite':
            c, a, b = posts[0].args
            if b is lf.head or a is lf.head:
                if a is lf.head:
                    c, a = lnot(c), b
                if not any(isinstance(x, T) and (symbols(x) & own or (x is a and self.k in symbols(x))) for x in (c, a)):
                    pre0, k0 = lf.pre, self.k
                    return lambda m: ite(exists_(self.I, k0, m, c), a, pre0)
        for p in posts:
            if isinstance(p, (T, tuple)) and symbols(p) & own:
                return None
        v = posts[-1]
        for c, p in list(zip(cs, posts))[:-1]:
            if lf.kind == 'mat' and p is not v:
                return None
            v = ite(c, p, v)
        k, pre, I = self.k, lf.pre, self.I

        def f(m):
            lastv = subst(v, {k: sub(m, 1)}) if isinstance(v, T) else v
            c = const_of(m)
            if c is not None:
                return pre if c <= 0 else lastv
            if I.entails(cmp_lt(0, m)) is True or same(lastv, pre):
                return lastv
            if lf.kind == 'mat':
                return tm.matsym(mk('mu', 'last', lastv, pre, m))
            return ite(cmp_lt(0, m), lastv, pre)
        return f

    def solve_bool(self, lf, posts, cs, own):
        I, k, h = self.I, self.k, lf.head
        anyT, anyF = False, False
        for p, c in zip(posts, cs):
            # drop the flag's own value from the branch condition
            c = drop_own(c, h)
            if p is h:
                continue
            if p is True:
                anyT = lor(anyT, c)
            elif p is False:
                anyF = lor(anyF, c)
            elif isinstance(p, T) and p.op == 'or' and h in p.args:
                r = lor(*[x for x in p.args if x is not h])
                if symbols(r) & own:
                    return None
                anyT = lor(anyT, land(c, r))
            elif isinstance(p, T) and p.op == 'and' and h in p.args:
                r = land(*[x for x in p.args if x is not h])
                if symbols(r) & own:
                    return None
                anyF = lor(anyF, land(c, lnot(r)))
            else:
                return self.last(lf, posts, cs, own)
        for c in (anyT, anyF):
            if isinstance(c, T) and symbols(c) & own:
                return None
        if anyT is not False and anyF is not False:
            return self.last(lf, posts, cs, own)
        if anyF is not False:
            return lambda m: land(lf.pre, forall_(I, k, m, lnot(anyF)))
        return lambda m: lor(lf.pre, exists_(I, k, m, anyT))

    def solve_list(self, lf, posts, conds, leaves, others):
        I, k, nm = self.I, self.k, lf.head
        pre = lf.pre
        if len(posts) == 1 and posts[0] and all(isinstance(p, If) for p in posts[0]):
            # overwritten in every iteration or in none
            keep = [p for p in posts[0] if len(p.ps) == 1 and is_src(p.ps[0], nm)]
            rest = [p for p in posts[0] if p not in keep]
            heads = self.head_syms(leaves) | {k}
            if len(keep) == 1 and not any(symbols(p.c) & heads for p in posts[0]) and \
                    all(lnot(keep[0].c) is lor(*[p.c for p in rest]) for _ in (0,)):
                inner = self.solve_list(lf, [[q for p in rest for q in ([p] if len(rest) > 1 else p.ps)]], [True],
                                        leaves, others)
                if inner is None:
                    return None
                c = keep[0].c
                return lambda m: [If(lnot(c), inner(m)), If(c, list(pre))]
        if all(invariant(I, ps, nm, pre) for ps in posts):
            return lambda m: list(pre)
        shapes = []
        for at, ps in enumerate(posts):
            i = next((j for j, p in enumerate(ps) if is_src(p, nm)), None)
            if i is not None:
                shapes.append(('ins', ps[:i], ps[i + 1:]))
                continue
            if len(ps) == 1:
                d = drop_of(ps[0], nm)
                if d:
                    shapes.append(('drop',) + d)
                    continue
            # normalised through the reified form
            if lf.kind == 'list':
                t = self.term_at(at, ps)
                if t is nm:
                    shapes.append(('ins', [], []))
                    continue
                r = self.by_term(t, nm)
                if r is not None:
                    shapes.append(r)
                    continue
            if not mentions(I, ps, nm):
                t = self.term_at(at, ps)
                ps = self.plugged(ps, [x for x in leaves if x is not lf])
                if ps is None:
                    return None
                shapes.append(('set', ps, t))
                continue
            return None
        cs = [self.solved_subst(c, leaves) for c in conds]
        if all(s[0] == 'ins' and not s[1] and not s[2] for s in shapes):
            return lambda m: list(pre)
        if any(s[0] == 'drop' for s in shapes):
            dirs = {s[1] for s in shapes if s[0] == 'drop'}
            amt = {s[2] for s in shapes if s[0] == 'drop'}
            if len(dirs) != 1 or len(amt) != 1:
                return None
            d = amt.pop()
            ln = mk('len', nm, kind='int')
            for s, c in zip(shapes, conds):
                if s[0] == 'ins' and not s[1] and not s[2]:
                    # nothing happens only when the list is (almost) empty
                    if c is not True and entails_under(c, cmp_lt(ln, d)):
                        continue
                    if d == 1 and entails_under(c, cmp_le(ln, 0)):
                        continue
                    return None
                if s[0] != 'drop':
                    return None
            if d != 1:
                return None
            side = dirs.pop()
            from .interp import smin
            total = I.seqlen(pre)

            def f(m):
                q = m if I.entails(cmp_le(m, total)) is True else smin(m, total)
                return drop_pieces(I, pre, side, q)
            return f
        if any(s[0] == 'set' for s in shapes):
            if all(s[0] == 'set' for s in shapes):
                # overwritten in every iteration
                groups = []
                for s, c in zip(shapes, cs):
                    t = s[2]
                    for g in groups:
                        if g[2] is t:
                            g[0] = lor(g[0], c)
                            break
                    else:
                        groups.append([c, s[1], t])
                own = self.head_syms([lf])
                if len(groups) > 1 and any(isinstance(g[0], T) and symbols(g[0]) & (own | others) for g in groups):
                    return None

                def f(m):
                    c = const_of(m)
                    if c is not None and c <= 0:
                        return list(pre)
                    mp = {k: sub(m, 1)}
                    if len(groups) == 1:
                        lastp = [I.inst_piece(q, mp) for q in groups[0][1]]
                    else:
                        lastp = [If(subst(g[0], mp) if isinstance(g[0], T) else g[0],
                                    [I.inst_piece(q, mp) for q in g[1]]) for g in groups if g[1]]
                    if I.entails(cmp_lt(0, m)) is True:
                        return lastp
                    return [If(cmp_lt(0, m), lastp), If(cmp_le(m, 0), list(pre))]
                return f
            return None
        for s in shapes:
            for q in list(s[1]) + list(s[2]):
                if piece_syms(I, [q], self.stx(q)) & others:
                    return None
        front = self.merge([s[1] for s in shapes], cs)
        back = self.merge([s[2] for s in shapes], cs)

        def f(m):
            out = list(pre)
            if front:
                k2 = fresh_idx()
                mp = {k: sub(sub(m, 1), k2)}
                out = [For(k2, m, [I.inst_piece(self.cleaned(q, leaves), mp) for q in front])] + out
            if back:
                out = out + [For(k, m, [self.cleaned(q, leaves) for q in back])]
            if const_of(m) is not None and const_of(m) <= 0:
                return list(pre)
            return out
        return f

    def plugged(self, ps, leaves):
        '''The pieces with copies of other generalised lists replaced by those lists after k iterations.'''
        out = []
        for p in ps:
            src = next((x for x in leaves if x.kind == 'list' and isinstance(x.head, T) and is_src(p, x.head)), None)
            if src is not None:
                if src.sol is None:
                    return None
                out += src.sol(self.k)
                continue
            if isinstance(p, (If, For, Perm)):
                q = self.plugged(p.ps, leaves)
                if q is None:
                    return None
                p = p if same_ps(q, p.ps) else If(p.c, q) if isinstance(p, If) else For(p.k, p.n, q) \
                    if isinstance(p, For) else Perm(p.d, q)
            out.append(p)
        return out

    def term_at(self, i, ps):
        '''The list as the i-th way through the body leaves it.'''
        save, self.I.st = self.I.st, self.rets[i].st
        try:
            return self.I.lterm(ps)
        finally:
            self.I.st = save

    def stx(self, q):
        return None

    def cleaned(self, q, leaves):
        if isinstance(q, It):
            v = q.v
            if isinstance(v, T) or isinstance(v, tuple):
                return It(self.deep_subst(v, leaves))
            return q
        if isinstance(q, If):
            return If(self.subst_heads(q.c, [l for l in leaves if l.sol], self.k), [self.cleaned(x, leaves) for x in q.ps])
        if isinstance(q, For):
            return For(q.k, self.subst_heads(q.n, [l for l in leaves if l.sol], self.k),
                       [self.cleaned(x, leaves) for x in q.ps])
        return q

    def deep_subst(self, v, leaves):
        if isinstance(v, T):
            return self.subst_heads(v, [l for l in leaves if l.sol], self.k)
        if isinstance(v, tuple):
            return tuple(self.deep_subst(x, leaves) for x in v)
        return v

    def by_term(self, t, nm):
        return None

    def merge(self, lists, cs):
        '''Pieces contributed under each path condition.'''
        if all(not x for x in lists):
            return []
        groups = []
        for ps, c in zip(lists, cs):
            for g in groups:
                if same_ps(g[1], ps):
                    g[0] = lor(g[0], c)
                    break
            else:
                groups.append([c, ps])
        if len(groups) == 1:
            return list(groups[0][1])
        ne = [g for g in groups if g[1]]
        if len(ne) == len(groups) and all(len(g[1]) == 1 and isinstance(g[1][0], It) and
                                         kindof(g[1][0].v) in ('int', 'real', 'num', 'bool', 'str') for g in groups):
            v = groups[-1][1][0].v
            for c, ps in reversed(groups[:-1]):
                v = ite(c, ps[0].v, v)
            return [It(v)]
        out = []
        for c, ps in ne:
            if c is True:
                out += ps
            elif c is not False:
                out.append(If(c, list(ps)))
        return out

    # ---------------------------------------------------------------- after the loop
    def loop_event(self, outs, head, leaves):
        I = self.I
        if I.st.assume:
            return
        I.st.events.append(Ev('loop', I.loc(), ctx=I.st.ctx, k=self.k, n=self.n, node=self.node,
                              paths=[(o.kind, getattr(o, 'condk', o.cond), list(o.newfacts), o.st.events, o.st)
                                     for o in outs], heads={lf.head: lf for lf in leaves}))

    def commit(self, st, rets, head, leaves, m, outs, loop_ev=True):
        I, k = self.I, self.k
        S0 = st
        # new objects of the iterations
        syms = self.head_syms(leaves)
        for o in rets:
            for a, ob in o.st.heap.items():
                if a not in S0.heap:
                    S0.heap[a] = ob
            for t, a in o.st.matz.items():
                S0.matz.setdefault(t, a)
            for c, v in o.st.cnt.items():
                if isinstance(v, int):
                    S0.cnt[c] = max(S0.cnt.get(c, 0), v)
                else:
                    S0.cnt.setdefault(c, v)
        # objects owned by the iteration that were changed in place
        for a, o0 in list(S0.heap.items()):
            if not self.owned(o0):
                continue
            news = [o.st.heap[a] for o in rets if a in o.st.heap]
            if not news or news == [o0]:
                continue
            if len(news) == 1:
                S0.heap[a] = news[0].clone()
            else:
                self.join_owned(S0, a, o0, news, [o.condk for o in rets if a in o.st.heap])
        if syms and leaves:
            def fv(x):
                if isinstance(x, T):
                    return self.subst_heads(x, leaves, k)
                if isinstance(x, tuple):
                    return tuple(fv(y) for y in x)
                return x

            def fp(p):
                if isinstance(p, It):
                    return It(fv(p.v))
                if isinstance(p, For):
                    return For(p.k, fv(p.n), [fp(q) for q in p.ps])
                if isinstance(p, If):
                    return If(fv(p.c), [fp(q) for q in p.ps])
                if isinstance(p, Perm):
                    return Perm(fv(p.d), [fp(q) for q in p.ps])
                return Mu(fv(p.t))
            for a, ob in list(S0.heap.items()):
                if self.owned(ob):
                    I.map_obj(ob, fv, fp, {})
                    if ob.kind == 'mat' and isinstance(ob.m, T):
                        ob.m = fv(ob.m)
        if loop_ev:
            self.loop_event(outs, head, leaves)
        # loop results
        self.apply(head, S0, m)
        # variables assigned in the body only: their last value
        for o in rets:
            for a, ob in list(S0.heap.items()):
                if ob.kind != 'env' or self.owned(ob) or a not in o.st.heap:
                    continue
                for nm, v in o.st.heap[a].v.items():
                    if (nm not in ob.v or (a, nm) in self.temps()) and len(rets) >= 1:
                        if isinstance(v, T):
                            v = self.subst_heads(v, leaves, k)
                        try:
                            ob.v[nm] = I.inst_value(v, {k: sub(m, 1)})
                        except Unsupported:
                            pass
        # what every iteration has established
        for o in rets:
            for f in o.reqk:
                c = f if o.condk is True else lor(lnot(o.condk), f)
                I.add_fact(forall_(I, k, m, c), 'assert')
        # raise-free continuation
        for o in outs:
            if o.kind == 'raise':
                try:
                    I.add_fact(forall_(I, k, m, lnot(o.condk)), 'branch')
                except Infeasible:
                    raise

    def join_owned(self, st, a, o0, news, conds):
        o = news[0].clone()
        if o.kind == 'inst':
            for f in list(o.f):
                v = news[-1].f.get(f)
                for c, x in list(zip(conds, news))[:-1]:
                    y = x.f.get(f)
                    if same(y, v):
                        continue
                    if kindof(y) and kindof(v):
                        v = ite(c, y, v)
                    else:
                        v = mk('mu', newname())
                o.f[f] = v
        elif o.kind in ('list', 'dict', 'set'):
            if not all(same_ps(x.ps, o.ps) for x in news):
                if len(news) == len(conds):
                    o.ps = [If(c, list(x.ps)) for c, x in zip(conds, news)]
                else:
                    o.ps = [Mu(mk('mu', newname()))]
        elif o.kind == 'mat':
            if not all(x.m is o.m for x in news):
                o.m = tm.matsym(mk('mu', newname()))
        elif o.kind == 'env':
            pass
        st.heap[a] = o


# ------------------------------------------------------------------------------------------------ helpers
def quiet_at(I, ps, i):
    if len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It):
        return I.inst_value(ps[0].ps[0].v, {ps[0].k: i})
    ci = const_of(i)
    if ci is not None and all(isinstance(p, It) for p in ps) and 0 <= ci < len(ps):
        return ps[int(ci)].v
    return None


def is_zero(h):
    return not isinstance(h, T) and h == 0


def count(c):
    if c is True:
        return 1
    if c is False:
        return 0
    return mk('count', c, kind='int')


def drop_own(c, h):
    if c is h or c is lnot(h):
        return True
    if isinstance(c, T) and c.op == 'and':
        return land(*[x for x in c.args if x is not h and x is not lnot(h)])
    return c


def forall_(I, k, n, c):
    from .interp import forall_t
    return forall_t(k, n, c)


def exists_(I, k, n, c):
    from .interp import exists_t
    return exists_t(k, n, c)


def entails_under(c, goal):
    cs = c.args if isinstance(c, T) and c.op == 'and' else (c,)
    if goal in cs:
        return True
    for x in cs:
        if isinstance(x, T) and x.op in ('eq0', 'le', 'lt') and isinstance(goal, T) and goal.op in ('le', 'lt'):
            # x: a-len<=0 style facts about the same length
            d = goal.args[0]
            for q in ((x.args[0],) if x.op != 'eq0' else (x.args[0], neg(x.args[0]))):
                e = const_of(sub(d, q))
                if e is not None and (e < 0 or (e == 0 and (goal.op == 'le' or x.op == 'lt'))):
                    return True
    return False


def mentions(I, ps, nm):
    return nm in {x for x in _syms_deep(I, ps)}


def _syms_deep(I, ps):
    out = set()
    for p in ps:
        if isinstance(p, It):
            out |= symbols(I.vt(p.v)) if not isinstance(p.v, (Ref, tuple)) else symbols(p.v) if isinstance(p.v, tuple) else set()
        elif isinstance(p, For):
            out |= symbols(p.n) | _syms_deep(I, p.ps)
        elif isinstance(p, If):
            out |= symbols(p.c) | _syms_deep(I, p.ps)
        elif isinstance(p, Perm):
            out |= _syms_deep(I, p.ps)
        else:
            out |= symbols(p.t)
    r = set(out)
    for x in out:
        for a in x.args:
            if isinstance(a, T):
                r |= symbols(a)
    return r


def piece_syms(I, ps, st):
    out = set()
    for p in ps:
        if isinstance(p, It):
            v = p.v
            if isinstance(v, (T, tuple)):
                try:
                    out |= symbols(v)
                except Exception:
                    pass
        elif isinstance(p, (For, If, Perm)):
            out |= piece_syms(I, p.ps, st)
    return out


def invariant(I, ps, nm, pre):
    '''Whether the list after one iteration is the list before the loop whenever it was so at its start.'''
    out = plug(ps, nm, pre)
    return same_ps(out, pre)


def plug(ps, nm, pre):
    out = []
    for p in ps:
        if is_src(p, nm):
            out += pre
        elif isinstance(p, If):
            q = plug(p.ps, nm, pre)
            if q:
                out.append(If(p.c, q))
        else:
            out.append(p)
    return out


def drop_pieces(I, pre, side, q):
    c = const_of(q)
    if c is not None and c <= 0:
        return list(pre)
    if len(pre) == 1 and isinstance(pre[0], For) and len(pre[0].ps) == 1:
        p = pre[0]
        if side == 'back':
            return [For(p.k, sub(p.n, q), p.ps)]
        k2 = fresh_idx()
        return [For(k2, sub(p.n, q), [I.inst_piece(x, {p.k: add(k2, q)}) for x in p.ps])]
    if not pre:
        return []
    return [Mu(mk('dropped', side, q, I.lterm(pre)))]


def mat_rec(h, post, own, k, pre):
    '''Left/right product and sum recurrences of a matrix.'''
    (hw, _), = tm.to_mat(h).items()
    ha = hw[0]
    d = tm.to_mat(post)
    if len(d) == 1:
        (w, c), = d.items()
        if symbols(c) & own if isinstance(c, T) else False:
            return None
        pos = [i for i, a in enumerate(w) if a is ha]
        if len(pos) == 1 and not any(symbols(a) & own for i, a in enumerate(w) if i != pos[0]):
            i = pos[0]
            left, right = w[:i], w[i + 1:]

            def f(m, left=left, right=right):
                r = pre
                if left:
                    r = tm.mmul(tm.prodmat(0, m, k, tm.from_mat({left: 1})), r)
                if right:
                    rd = tm.dagger(tm.from_mat({right: 1}))
                    r = tm.mmul(r, tm.dagger(tm.prodmat(0, m, k, rd)))
                if const_of(c) != 1:
                    r = tm.mscale(mk('nprod', k, m, c, kind='num') if isinstance(c, T) and k in symbols(c)
                                  else tm.power(c, m), r)
                return r
            return f
    # sum
    if (ha,) in d and const_of(d[(ha,)]) == 1:
        rest = tm.from_mat({w: c for w, c in d.items() if w != (ha,)})
        if not symbols(rest) & own:
            def g(m):
                e = rest
                if k not in symbols(e):
                    return tm.madd(pre, tm.mscale(m, e))
                c = const_of(m)
                if c is not None and c <= 8:
                    r = pre
                    for j in range(int(c)):
                        r = tm.madd(r, subst(e, {k: j}))
                    return r
                return tm.madd(pre, tm.summat(m, k, e))
            return g
    return None


def first_use_is_store(body, nm):
    '''In straight-line order the name is assigned before it is read.'''
    import ast

    def scan(stmts):
        for s in stmts:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                if s.value is not None and reads(s.value):
                    return False
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(x, ast.Name) and x.id == nm for t in ts for x in ast.walk(t)):
                    return True
                if any(reads(t) for t in ts):
                    return False
            elif isinstance(s, ast.For):
                if reads(s.iter):
                    return False
                if any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s.target)):
                    return True
                r = scan(s.body)
                if r is False:
                    return False
            elif isinstance(s, ast.If):
                if reads(s.test):
                    return False
                a, b = scan(s.body), scan(s.orelse)
                if a is False or b is False:
                    return False
                if a and b:
                    return True
                if a or b:
                    return None if False else 'maybe'
            elif isinstance(s, ast.With):
                r = scan(s.body)
                if r is not None:
                    return r
            else:
                if reads(s):
                    return False
        return None

    def reads(n):
        return any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for x in ast.walk(n))
    return scan(body) in (True, None)


# ------------------------------------------------------------------------------------------------ while
class WhileRec:
    '''Everything the analysis knows about one while loop.'''

    def __init__(self):
        self.node = None
        self.pre = None         # state before the loop
        self.head = None        # generalised head state
        self.cells = None       # Head object
        self.paths = []         # outcomes of one iteration: kind next|exit|break|return|raise
        self.first = []         # the same from the concrete pre-state (first iteration)


def while_(I, s, env):
    '''Counter loops with a known number of iterations are unrolled; others are analysed from a generalised head.'''
    st = I.st
    key = ('while', s.lineno, s.col_offset)
    n = 0
    # concrete loops: run while the condition is decided by the facts
    while n < 40:
        c = peek(I, s.test, env)
        if c is None:
            break
        if c is False:
            I.block(s.orelse, env)
            return
        if n >= 12 and not concrete(I, s, env):
            break
        n += 1
        if isinstance(s.test, ast_const()) and n == 1:
            break
        try:
            I.block(s.body, env)
        except ContinueX:
            pass
        except BreakX:
            return
    counter = as_counter(I, s, env)
    if counter:
        return counter()
    WhileLoop(I, s, env).go()


def ast_const():
    import ast
    return ast.Constant


def concrete(I, s, env):
    return True


def peek(I, test, env):
    '''The value of the condition when the current facts decide it without partitioning.'''
    save = I.st
    I.st = save.clone()
    I.st.dec, I.st.arity, I.st.pos = [], [], 0
    node = I.node
    try:
        v = I.boolv(I.ev_expr(test, env))
        r = I.entails(v)
        if I.st.dec or any(e.kind == 'draw' for e in I.st.events[len(save.events):]):
            return None
        if r is True and not isinstance(I.canon(v), bool):
            return None         # true of the first iteration only, as far as is known
        return r
    except (TargetRaise, Infeasible, Unsupported):
        return None
    finally:
        I.st = save
        I.node = node


def as_counter(I, s, env):
    '''while i < n: ...; i += 1   as an iteration over range.'''
    import ast
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and
            isinstance(t.left, ast.Name)):
        return None
    nm = t.left.id
    inc = [x for x in s.body if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and
           x.target.id == nm and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
    writes = [x for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and x.id == nm and
              isinstance(x.ctx, ast.Store)]
    if len(inc) != 1 or len(writes) != 1 or s.body[-1] is not inc[0]:
        return None
    if any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)):
        return None
    names = {x.id for x in ast.walk(t.comparators[0]) if isinstance(x, ast.Name)}
    stores = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if names & stores or any(isinstance(x, ast.Call) for x in ast.walk(t.comparators[0])):
        return None
    try:
        start = I.lookup(nm, env)
        end = I.ev_expr(t.comparators[0], env)
    except Unsupported:
        return None
    if kindof(start) != 'int' or kindof(end) != 'int':
        return None
    if isinstance(t.ops[0], ast.LtE):
        end = add(end, 1)
    n = sub(end, start)

    def go():
        from .interp import smax
        k = fresh_idx()
        cnt = n if I.entails(cmp_le(0, n)) is True else smax(n, 0)

        def run(v):
            I.setname(nm, add(start, v), env)
            I.block(s.body[:-1], env)
        try:
            iterate(I, [For(k, cnt, [It(k)])], run, s)
        except BreakX:
            return
        I.setname(nm, add(start, cnt), env)
        I.block(s.orelse, env)
    return go


AS_WHILE = {}


def as_while(I, s):
    '''for x in range(a, b) with an early exit, as a while loop.'''
    import ast
    if s in AS_WHILE:
        return AS_WHILE[s]

    def exits(stmts):
        for b in stmts:
            if isinstance(b, (ast.Break, ast.Return)):
                return True
            if isinstance(b, (ast.FunctionDef, ast.Lambda)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                x = getattr(b, f, None)
                if isinstance(x, list) and not (isinstance(b, (ast.For, ast.While)) and f == 'body' and not any(
                        isinstance(y, ast.Return) for z in x for y in ast.walk(z))) and exits(x):
                    return True
        return False
    r = None
    c = s.iter
    if isinstance(c, ast.Call) and not c.keywords and exits(s.body):
        f = ast.unparse(c.func)
        a = [ast.unparse(x) for x in c.args]
        lo, hi = None, None
        if f == 'range' and len(a) in (1, 2):
            lo, hi = ('0', a[0]) if len(a) == 1 else a
        elif f in ('itertools.count', 'count') and len(a) <= 1:
            lo = a[0] if a else '0'
        if lo is not None:
            n = f'__for_{s.lineno}_{s.col_offset}'
            src = f'{n} = {lo}\n' + (f'{n}_end = {hi}\nwhile {n} < {n}_end:\n' if hi else 'while True:\n') + \
                f'    {ast.unparse(s.target)} = {n}\n    {n} = {n} + 1\n'
            m = ast.parse(src)
            m.body[-1].body += s.body
            m.body[-1].orelse = s.orelse
            for b in m.body:
                for x in [b] + (b.body[:2] if isinstance(b, ast.While) else []):
                    for y in ast.walk(x) if x is not b or not isinstance(b, ast.While) else [b, *ast.walk(b.test)]:
                        if hasattr(y, 'lineno'):
                            y.lineno, y.col_offset = s.lineno, s.col_offset
            r = m.body
    AS_WHILE[s] = r
    return r


class WhileLoop(Loop):
    def __init__(self, I, s, env):
        self.s, self.env = s, env
        k = fresh_idx()
        Loop.__init__(self, I, k, mk('iters', newname(), kind='int'), self.once, s, None, None, None)
        self.peeled = True

    def once(self):
        I = self.I
        if not I.cond(self.s.test, self.env):
            raise ExitLoop
        try:
            I.block(self.s.body, self.env)
        except ContinueX:
            pass

    def body_(self):
        try:
            self.once()
        except ExitLoop:
            self.I.st.cnt['#exit'] = 1
            raise BreakX

    def go(self):
        I, s, env = self.I, self.s, self.env
        I.stats['loops'] += 1
        self.body = self.body_
        key = I.memo_key(s)
        rec = I.recall(key)
        if rec is None:
            rec = self.analyse()
            rec.addr = I.next_addr
            I.remember(key, rec)
        I.next_addr = rec.addr
        outs = rec.paths
        # continue after the loop from each way out
        ways = [o for o in outs if o.kind in ('exit', 'break', 'return', 'raise')]
        if not ways:
            raise Unsupported('loop without exit')
        i = 0
        if len(ways) > 1:
            i = I.choose(len(ways))
            st = I.st
            if len(st.arity) >= st.pos:
                st.arity[st.pos - 1] = len(ways)
        o = ways[i]
        st = I.st
        ev = list(st.events)
        dec = (st.dec, st.arity, st.pos, st.assume)
        for nm in ('heap', 'facts', 'eqs', 'cnt', 'matz'):
            setattr(st, nm, getattr(o.st.clone(), nm))
        st.facts = {f: og for f, og in st.facts.items()}
        if not st.assume:
            st.events = ev + [Ev('while', rec.loc, ctx=st.ctx, rec=rec, way=o)] + list(o.st.events)
        if o.kind == 'return':
            raise ReturnX(o.v)
        if o.kind == 'raise':
            raise o.v
        if o.kind == 'exit':
            I.block(s.orelse, env)

    def analyse(self):
        I = self.I
        rec = WhileRec()
        rec.node, rec.loc = self.s, I.loc()
        rec.loop = self
        rec.pre = I.st.clone()
        outs, head, st1 = self.stabilise()
        if I.meanings:
            outs, head, st1 = self.understand(rec.pre, outs, head, st1)
        rec.head, rec.cells, rec.paths, rec.k = st1, head, outs, self.k
        for o in outs:
            if o.kind == 'break' and o.st.cnt.pop('#exit', None):
                o.kind = 'exit'
            elif o.kind == 'ret':
                o.kind = 'next'
        return rec

    def unrolled(self, rec, depth, keep):
        '''(state before, outcome) of the first iterations, from the actual state before the loop; at most keep states are
        followed after each of them.'''
        I = self.I
        states = [rec.pre]
        self.body = self.body_
        for d in range(depth):
            nxt = []
            for S in states:
                S0 = S.clone()
                S0.assume = 0
                S0.events = []
                outs = I.explore(self.body_, S0)
                for o in outs:
                    o.newfacts = {f: og for f, og in o.st.facts.items() if f not in S.facts}
                    if o.kind == 'break' and o.st.cnt.pop('#exit', None):
                        o.kind = 'exit'
                    elif o.kind == 'ret':
                        o.kind = 'next'
                        nxt.append(o.st)
                    yield S, o, d
            if len(nxt) > keep:
                nxt = [nxt[i * len(nxt) // keep] for i in range(keep)]
            states = nxt

    def explain(self, options, rets, live, at, equal, sub):
        show = tm.show
        for lf, mine in options:
            for v, o, x in zip(lf.posts, rets, live):
                w = at(mine[0][0], o.st)
                if x and not equal(v, w, o.st, sub):
                    print(f'CELL {lf.kind} {show(lf.head, 3)}: after an iteration', show(subst(v, sub), 9)[:300], 'expected',
                          show(w, 9)[:300])
                    for f in o.newfacts:
                        f = show(subst(f, sub), 12)
                        if 'entry' not in f and 'prims' not in f:
                            print('     if', f[:300])

    def understand(self, pre, outs, head, st1):
        '''Cells that hold a known function of other cells before the loop and after every iteration are replaced by
        that function (an inductive invariant, checked here), and the iteration is analysed again.'''
        I = self.I
        if any(o.kind == 'ret' for o in outs):
            every = head.leaves()
            leaves = [lf for lf in every if lf.kind in ('scalar', 'bool', 'mat')]
            for lf in every:
                lf.posts = []
            rets = [o for o in outs if o.kind == 'ret']
            for o in rets:
                self.read(head, o.st)
            lasts = [lf for lf in every if lf.kind == 'list' and not lf.pre]
            fns = I.meanings(pre, st1)

            def at(fn, st):
                save, I.st = I.st, st.clone()
                I.st.assume += 1
                try:
                    return I.canon(fn(I.st))
                except (Unsupported, TargetRaise, Infeasible):
                    return None
                finally:
                    I.st = save

            def equal(v, w, st, sub):
                if v is None or w is None:
                    return False
                if isinstance(v, T):
                    v = subst(v, sub)
                if isinstance(w, T):
                    w = subst(w, sub)
                save, I.st = I.st, st
                try:
                    v, w = I.canon(v), I.canon(w)
                    if same(v, w):
                        return True
                    if kindof(v) == 'bool' or kindof(w) == 'bool':
                        a, b = I.entails(v), I.entails(w)
                        return a is not None and a == b
                    if tm.is_number(v) and tm.is_number(w):
                        return I.entails(cmp_eq(v, w)) is True
                    return False
                finally:
                    I.st = save
            def possible(o, sub):
                '''Whether the way through the body remains when the cells mean what they are taken for.'''
                save, I.st = I.st, st1.clone()
                try:
                    for f, og in o.newfacts.items():
                        g = subst(f, sub)
                        if I.entails(g) is False:
                            return False
                        I.add_fact(g, og)
                    for f in o.newfacts:
                        I.check_feasible(I.canon(subst(f, sub)))
                    return True
                except Infeasible:
                    return False
                finally:
                    I.st = save
            options = []
            for lf in leaves:
                mine = [(fn, at(fn, st1)) for kind, fn in fns if kind == lf.kind and equal(lf.pre, at(fn, pre), pre, {})]
                mine = [(fn, t) for fn, t in mine if isinstance(t, T) and not symbols(t) & self.head_syms([lf])]
                if mine:
                    options.append((lf, mine))
            # the last element of a list that starts empty
            for lf in lasts:
                n = LastOf(lf, rets)
                mine = [(fn, at(fn, st1)) for kind, fn in fns if kind == 'scalar']
                mine = [(fn, t) for fn, t in mine if isinstance(t, T) and lf.head not in tm.subterms(t)]
                if n.head is not None and mine:
                    options.append((n, mine))
            # largest set of meanings that is inductive
            while options:
                sub = {}
                for lf, mine in options:
                    sub.update(meaning_subst(lf.head, mine[0][1]))
                drop = None
                live = [possible(o, sub) for o in rets]
                if os.environ.get('SA_UND'):
                    self.explain(options, rets, live, at, equal, sub)
                for i, (lf, mine) in enumerate(options):
                    if not all(equal(v, at(mine[0][0], o.st), o.st, sub) for v, o, x in zip(lf.posts, rets, live) if x):
                        drop = i
                        break
                if drop is None:
                    break
                lf, mine = options[drop]
                if len(mine) > 1:
                    options[drop] = (lf, mine[1:])
                else:
                    options.pop(drop)
            if options:
                for lf, mine in options:
                    if isinstance(lf, LastOf):
                        head.known = {**head.known, lf.head: mine[0][1]}
                    else:
                        lf.head = mine[0][1]
                save, I.st = I.st, pre.clone()
                I.st.dec, I.st.arity, I.st.pos = [], [], 0
                try:
                    return self.stabilise(head)
                finally:
                    I.st = save
        return outs, head, st1


def meaning_subst(h, v):
    '''The replacement of the symbol a cell is generalised to.'''
    if isinstance(h, T) and h.kind != 'mat':
        return {h: v}
    s = [a for w in tm.to_mat(h) for a in w]
    return {s[0]: v} if len(s) == 1 else {}


class LastOf:
    '''The last element of a generalised list that is empty before the loop.'''
    kind = 'last'

    def __init__(self, lf, rets):
        h = lf.head
        n = sub(mk('len', h, kind='int'), 1)
        self.posts = [self.of(ps, h) for ps in lf.posts]
        seen = {x for o in rets for f in o.newfacts for x in tm.subterms(f)}
        seen |= {x for v in self.posts if isinstance(v, T) for x in tm.subterms(v)}
        heads = {x for x in seen if x.op == 'elem' and x.args[0] is h and x.args[1] is n}
        self.head = heads.pop() if len(heads) == 1 else None
        self.posts = [self.head if v is KEPT else v for v in self.posts]

    @staticmethod
    def of(ps, h):
        if ps and isinstance(ps[-1], It) and isinstance(ps[-1].v, T):
            return ps[-1].v
        return KEPT if len(ps) == 1 and is_src(ps[0], h) else None


KEPT = object()


class ExitLoop(Exception):
    pass
