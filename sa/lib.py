'''
Abstract models of the built-in, NumPy, SciPy and standard-library operations the package uses.
'''
from fractions import Fraction as Fr

from . import terms as tm
from .terms import (T, mk, add, sub, mul, neg, div, power, const_of, cmp_le, cmp_lt, cmp_eq, lnot, land, lor,
                    is_number, is_num_const, subst, symbols, cat)
from .dom import *
from . import konst

F = {}
TINY = Fr(1, 10 ** 12) * Fr(1000001, 1000000)
SEED_SOURCES = ('random.', 'secrets.', 'uuid.', 'os.urandom', 'time.', 'datetime.')


def ext(*names):
    def d(f):
        for n in names:
            F[n] = f
        return f
    return d


class Unknown(Exception):
    pass


# ---------------------------------------------------------------- helpers
def arg(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


def unknown(I, name, args, kw=None, effects=True):
    '''A library call outside the models: an uninterpreted function of its arguments.'''
    vs = [I.vt(a) if not isinstance(a, (slice, ViewKey)) else mk('slice', repr(a)) for a in args]
    vs += [mk('kw', k, I.vt(v)) for k, v in sorted((kw or {}).items())]
    I.ev('unknown_call', name=name)
    return mk('call', name, *vs)


class ViewKey:
    pass


def num(I, v):
    '''The value as a scalar term.'''
    if isinstance(v, bool):
        return int(v)
    if is_num_const(v):
        return v
    if isinstance(v, T):
        if v.kind in tm.NUMK:
            return v
        if v.kind == 'bool':
            return mk('b2i', v, kind='int')
        w = I.scalar(v)
        if w.kind in tm.NUMK:
            return w
        if isinstance(I.mat(v), Ref) and I.mat(v) is not v:
            return num(I, I.mat(v))
        if v.kind == 'any':
            return mk('asnum', v, kind='num')
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind == 'list' and o.arr and len(o.ps) == 1 and isinstance(o.ps[0], It):
            return num(I, o.ps[0].v)
        if o.kind == 'karr' and o.a.size == 1:
            return num(I, konst.scalar(I, v))
    return None


def is_scalar(I, v):
    if isinstance(v, (bool, str)) or v is None:
        return isinstance(v, bool)
    if is_num_const(v):
        return True
    if isinstance(v, T):
        return I.scalar(v).kind in tm.NUMK + ('bool',)
    return False


def as_mat(I, v):
    '''Matrix content of a value, or None.'''
    v = I.mat(v)
    if isinstance(v, Ref):
        o = I.obj(v)
        if o.kind == 'mat':
            return o.m
        if o.kind == 'list':
            return lit_of(I, o)
        if o.kind == 'karr':
            return konst.to_mat(I, o)
    if isinstance(v, T) and v.kind == 'any' and v.op in ('call', 'sym', 'item', 'attrof', 'elem'):
        return tm.from_mat({(tm.m_atom('app', v),): 1})
    return None


def is_matv(I, v):
    v = I.mat(v)
    return isinstance(v, Ref) and I.obj(v).kind == 'mat'


def lit_of(I, o):
    rows = []
    for p in o.ps:
        if not isinstance(p, It):
            return None
        r = I.o(p.v, 'list')
        if r is None:
            if isinstance(p.v, tuple):
                vs = list(p.v)
            else:
                return None
        else:
            if not all(isinstance(q, It) for q in r.ps):
                return None
            vs = [q.v for q in r.ps]
        row = [num(I, x) if is_scalar(I, x) else None for x in vs]
        if any(x is None for x in row):
            return None
        rows.append(tuple(row))
    if not rows or len({len(r) for r in rows}) != 1:
        return None
    return lit(tuple(rows))


def lit(rows):
    n = len(rows)
    if all(len(r) == n for r in rows) and all(
            const_of(rows[i][j]) == (1 if i == j else 0) for i in range(n) for j in range(n)):
        return tm.ident(n)
    return tm.from_mat({(tm.m_atom('lit', tuple(tuple(r) for r in rows)),): 1})


def lit_rows(m):
    w = tm.single_word(m)
    if w and len(w) == 1 and w[0].op == 'lit':
        return w[0].args[0]
    return None


def mshape(I, m):
    w0 = next(iter(tm.to_mat(m)), ())
    a = w0[0] if w0 else None
    b = w0[-1] if w0 else None

    def side(at, i):
        if at is None:
            return mk('shape', m, i, kind='int')
        if at.op == 'dec' and at.args[1]:
            return side(at.args[0], 1 - i)
        if at.op == 'dec':
            return side(at.args[0], i)
        if at.op == 'lit':
            return len(at.args[0]) if i == 0 else len(at.args[0][0])
        inner = at.args[1] if at.op == 'call' and at.args[0] in ('setitem', 'astype', 'abs', 'conj') else \
            at.args[0] if at.op in ('cleaned', 'part') else None
        if tm.is_mat(inner):
            return mshape(I, inner)[i]
        if at.op in ('app', 'call', 'part', 'had') or (
                at.op == 'msym' and at not in tm.DIMS and not (
                    isinstance(at.args[0], T) and at.args[0].op == 'attrof' and at.args[0].args[1] == 'matrix'
                    and at in tm.UNITARY)):
            return I.canon(mk('shape', tm.from_mat({(at,): 1}), i, kind='int'))
        return I.canon(tm.dim_of_atom(at))
    return (side(a, 0), side(b, 1))


def to_str(I, v):
    if isinstance(v, str):
        return v
    if v is None or isinstance(v, bool) or isinstance(v, int):
        return str(v)
    if isinstance(v, T):
        v = I.scalar(v)
        if v.kind == 'str':
            return v
        if v.op == 'npelem':
            return mk('str', mk('elem', *v.args, kind=v.kind), kind='str')
    if isinstance(v, Ref) and I.obj(v).kind == 'inst':
        c = I.obj(v).cls
        for n in ('__str__', '__repr__'):
            m = c.find(n) if isinstance(c, Cls) else None
            if m is not None:
                return I.call(Bound(m, v), [], {})
    return mk('str', I.vt(v), kind='str')


def to_repr(I, v):
    if isinstance(v, Ref) and I.obj(v).kind == 'inst':
        c = I.obj(v).cls
        m = c.find('__repr__') if isinstance(c, Cls) else None
        if m is not None:
            return I.call(Bound(m, v), [], {})
    if isinstance(v, str):
        return repr(v)
    return mk('repr', I.vt(v), kind='str') if isinstance(I.scalar(v) if isinstance(v, T) else v, T) else to_str(I, v)


def norm(b):
    '''Normal forms of conditions over maxima, minima and cardinalities.'''
    if not isinstance(b, T) or b.op not in ('le', 'lt', 'eq0', 'not', 'and', 'or', 'forall', 'exists'):
        return b
    if not has_agg(b):
        return b
    from .interp import forall_t, exists_t
    if b.op == 'not':
        return lnot(norm(b.args[0]))
    if b.op == 'and':
        return land(*[norm(x) for x in b.args])
    if b.op == 'or':
        return lor(*[norm(x) for x in b.args])
    if b.op in ('forall', 'exists'):
        return (forall_t if b.op == 'forall' else exists_t)(b.args[0], b.args[1], norm(b.args[2]))
    p = tm.to_poly(b.args[0])
    cards = [m[0][0] for m in p if len(m) == 1 and m[0][0].op == 'card']
    if len(cards) == 1 and len(p) in (2, 3):
        card = cards[0]
        L = card.args[0]
        n = seqterm_len(L)
        d = sub(b.args[0], mul(p[((card, Fr(1)),)][0], sub(card, n)))
        c = const_of(d)
        sign = p[((card, Fr(1)),)][0]
        if c is not None and abs(sign) == 1:
            dist = mk('distinct', L, kind='bool')
            if b.op == 'eq0' and c == 0:
                return dist
            if b.op == 'le' and sign == 1 and c == 1:      # card + 1 <= n
                return lnot(dist)
            if b.op == 'le' and sign == -1 and c == 0:     # n <= card
                return dist
            if b.op == 'le' and sign == 1 and c == 0:
                return True
    if b.op in ('le', 'lt'):
        hit = None
        for m, c in p.items():
            for a, e in m:
                for x in tm.subterms(a):
                    if x.op in ('amax', 'amin'):
                        if hit is not None and hit[0] is not x:
                            return b
                        hit = (x, a, m, c, e)
        if hit:
            x, a, m, c, e = hit
            n_occ = sum(1 for mm in p for aa, ee in mm if x in tm.subterms(aa))
            mono_ok = (a is x) or (a.op == 'powt' and const_of(a.args[0]) is not None and const_of(a.args[0]) >= 1
                                   and increasing(a.args[1], x))
            others = all(tm.nonneg_atom(aa) for aa, ee in m if aa is not a)
            if n_occ == 1 and e == 1 and c[1] == 0 and mono_ok and others:
                if (x.op == 'amax') == (c[0] > 0):
                    L = x.args[0]
                    bv, nn, body = seqterm_elem(L)
                    if bv is not None:
                        k = fresh_idx()
                        return forall_t(k, nn, tm._cmp(subst(b.args[0], {x: subst(body, {bv: k})}), b.op == 'lt'))
                elif True:
                    L = x.args[0]
                    bv, nn, body = seqterm_elem(L)
                    if bv is not None:
                        k = fresh_idx()
                        return exists_t(k, nn, tm._cmp(subst(b.args[0], {x: subst(body, {bv: k})}), b.op == 'lt'))
    return b


def increasing(t_, x):
    p = tm.to_poly(t_)
    m = ((x, Fr(1)),)
    return m in p and p[m][0] > 0 and all(x not in {a for a, _ in mm} for mm in p if mm != m)


_agg = {}


def has_agg(b):
    r = _agg.get(b)
    if r is None:
        r = any(x.op in ('amax', 'amin', 'card') for x in tm.subterms(b))
        _agg[b] = r
    return r


def seqterm_len(L):
    '''Length of a reified list.'''
    if L.op == 'list':
        n = 0
        for x in L.args:
            if x.op == 'it':
                n = add(n, 1)
            elif x.op == 'src':
                n = add(n, mk('len', x.args[0], kind='int'))
            elif x.op == 'for' and all(y.op == 'it' for y in x.args[2].args):
                n = add(n, mul(x.args[1], len(x.args[2].args)))
            else:
                return mk('len', L, kind='int')
        return n
    return mk('len', L, kind='int')


ELEMKIND = {}


def seqterm_elem(L):
    if L.op == 'list':
        if len(L.args) == 1 and L.args[0].op == 'for' and len(L.args[0].args[2].args) == 1 and \
                L.args[0].args[2].args[0].op == 'it':
            bv, n, body = L.args[0].args
            return bv, n, body.args[0].args[0]
        return None, None, None
    k = ELEMKIND.get(L)
    if k is None:
        return None, None, None
    bv = mk('bv', 99, kind='int')
    return bv, mk('len', L, kind='int'), mk(k[0], L, bv, kind=k[1])


def note_elem(I, ps):
    '''Remembers how the elements of a plain input list are named.'''
    if len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It):
        v = ps[0].ps[0].v
        if isinstance(v, T) and v.op in ('elem', 'npelem') and v.args[1] is ps[0].k:
            ELEMKIND[v.args[0]] = (v.op, v.kind)


# ---------------------------------------------------------------- binary operators
def binop(I, op, a, b):
    if isinstance(a, T):
        a = I.scalar(a)
    if isinstance(b, T):
        b = I.scalar(b)
    if is_num_const(a) and is_num_const(b) or isinstance(a, bool) and is_num_const(b) or \
            isinstance(b, bool) and is_num_const(a) or isinstance(a, bool) and isinstance(b, bool):
        return const_op(I, op, a, b)
    if isinstance(a, str) or isinstance(b, str) or (isinstance(a, T) and a.kind == 'str') or (
            isinstance(b, T) and b.kind == 'str'):
        return str_op(I, op, a, b)
    if konst.is_karr(I, a) or konst.is_karr(I, b):
        r = konst.binop(I, op, a, b)
        if r is not None:
            return r
        a, b = konst.as_matrix(I, a), konst.as_matrix(I, b)
    if is_scalar(I, a) and is_scalar(I, b):
        if op in '&|^' and all(isinstance(x, bool) or (isinstance(x, T) and x.kind == 'bool') for x in (a, b)):
            return land(a, b) if op == '&' else lor(a, b) if op == '|' else lnot(I.boolv(compare(I, '==', a, b)))
        return num_op(I, op, num(I, a), num(I, b))
    a, b = I.mat(a), I.mat(b)
    if a is None or b is None:
        raise TargetRaise('TypeError', I.loc(), 'None operand')
    for x, nm in ((a, {'+': '__add__', '-': '__sub__', '*': '__mul__', '@': '__matmul__', '/': '__truediv__',
                       '**': '__pow__'}.get(op)),):
        if isinstance(x, Ref) and I.obj(x).kind == 'inst' and isinstance(I.obj(x).cls, Cls) and nm:
            m = I.obj(x).cls.find(nm)
            if m is not None:
                return I.call(Bound(m, x), [b], {})
            raise TargetRaise('TypeError', I.loc(), 'operand type')
    if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
        return a + b
    if isinstance(a, tuple) and op == '*' and isinstance(b, int):
        return a * b
    oa, ob = I.o(a), I.o(b)
    ka, kb = (oa.kind if oa else None), (ob.kind if ob else None)
    if ka == 'list' and oa.arr and ob is not None and kb == 'mat' or kb == 'list' and ob.arr and ka == 'mat':
        ma, mb = as_mat(I, a), as_mat(I, b)
        if ma is not None and mb is not None:
            return mat_op(I, op, ma, mb, oa, ob)
        return unknown(I, 'op' + op, [a, b])
    if ka == 'mat' or kb == 'mat':
        ma = as_mat(I, a) if ka in ('mat', 'list') or (isinstance(a, T) and not is_scalar(I, a)) else None
        mb = as_mat(I, b) if kb in ('mat', 'list') or (isinstance(b, T) and not is_scalar(I, b)) else None
        if ma is not None and mb is not None:
            return mat_op(I, op, ma, mb, oa, ob)
        if ma is not None and is_scalar(I, b):
            return matscalar(I, op, ma, num(I, b), oa)
        if mb is not None and is_scalar(I, a):
            s = num(I, a)
            if op == '*':
                if has_nan(mb):
                    return I.new_mat(mb)
                return matscalar(I, '*', mb, s, ob)
            return I.new_mat(app('op' + op, s, mb))
        return unknown(I, 'op' + op, [a, b])
    if ka == 'list' and kb == 'list' and not oa.arr and not ob.arr and op == '+':
        return I.new_list(list(oa.ps) + list(ob.ps))
    if ka == 'list' and not oa.arr and op == '*' and is_scalar(I, b):
        return repeat_list(I, oa.ps, num(I, b))
    if kb == 'list' and not ob.arr and op == '*' and is_scalar(I, a) and not (
            isinstance(a, T) and a.op in ('sumnp',)):
        n = num(I, a)
        if (isinstance(n, int) or (isinstance(n, T) and n.kind == 'int')):
            return repeat_list(I, ob.ps, n)
    if ka == kb == 'set' and op == '|':
        return I.ref(SetO(oa.ps + ob.ps))
    if ka == 'set' or kb == 'set':
        return I.ref(SetO([Mu(mk('setop', op, I.vt(a), I.vt(b)))]))
    if ka == 'list' or kb == 'list':
        return elementwise2(I, a, b, lambda x, y: binop(I, op, x, y), 'op' + op)
    return unknown(I, 'op' + op, [a, b])


def repeat_list(I, ps, n):
    c = const_of(n)
    if c is not None:
        return I.new_list(list(ps) * int(c)) if c <= 64 else I.new_list([For(fresh_idx(), int(c), list(ps))])
    return I.new_list([For(fresh_idx(), n, list(ps))])


def app(name, *args):
    return tm.from_mat({(tm.m_atom('call', name, *args),): 1})


def mat_op(I, op, a, b, oa=None, ob=None):
    sparse = (oa is not None and oa.kind == 'mat' and oa.base == 'sparse') or (
        ob is not None and ob.kind == 'mat' and ob.base == 'sparse')
    both = sparse and oa is not None and ob is not None and oa.kind == ob.kind == 'mat' and oa.base == ob.base
    if op == '@' or (op == '*' and sparse):
        ra, rb = lit_rows(a), lit_rows(b)
        if ra is not None and rb is not None and len(ra[0]) == len(rb):
            rows = tuple(tuple(sum_([mul(ra[i][k], rb[k][j]) for k in range(len(rb))]) for j in range(len(rb[0])))
                         for i in range(len(ra)))
            return I.new_mat(lit(rows), 'sparse' if both else None)
        return I.new_mat(tm.mmul(a, b), 'sparse' if both else None)
    if op in '+-':
        s = 1 if op == '+' else -1
        r = recombine(a, b, s)
        if r is not None:
            return I.new_mat(r)
        return I.new_mat(tm.madd(a, tm.mscale(s, b)))
    if op == '*':
        ra, rb = lit_rows(a), lit_rows(b)
        if ra and rb and len(ra) == len(rb):
            return I.new_mat(lit(tuple(tuple(mul(x, y) for x, y in zip(p, q)) for p, q in zip(ra, rb))))
        return I.new_mat(tm.from_mat({(tm.m_atom('had', a, b),): 1}))
    return I.new_mat(app('op' + op, a, b))


def recombine(a, b, s):
    '''real part + i * imaginary part.'''
    for x, y, sx, sy in ((a, b, 1, s), (b, a, s, 1)):
        dx, dy = tm.to_mat(x), tm.to_mat(y)
        if len(dx) == 1 and len(dy) == 1:
            (wx, cx), = dx.items()
            (wy, cy), = dy.items()
            if len(wx) == 1 and len(wy) == 1 and wx[0].op == wy[0].op == 'part' and \
                    wx[0].args[0] is wy[0].args[0] and wx[0].args[1] == 'real' and wy[0].args[1] == 'imag':
                if const_of(mul(cx, sx)) == 1 and tm.sub(mul(cy, sy), 1j) == 0:
                    return wx[0].args[0]
    return None


def sum_(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r


def has_nan(m):
    return tm.is_mat(m) and any(a.op == 'call' and a.args[0] == 'nan' for w in tm.to_mat(m) for a in w)


def norm2(m):
    r = lit_rows(m)
    if r is not None and all(const_of(x) == 0 for q in r for x in q) or not tm.to_mat(m):
        return 0
    return mk('norm2', m, kind='real')


def balances(s):
    '''A determinant factor: kept in front of the matrix.'''
    return isinstance(s, T) and any(x.op == 'det' for x in tm.subterms(s))


def matscalar(I, op, m, s, o):
    base = 'sparse' if o is not None and o.kind == 'mat' and o.base == 'sparse' else None
    if has_nan(m):
        return I.new_mat(m, base)
    if op == '*':
        r = lit_rows(m)
        if r is not None and not balances(s):
            return I.new_mat(lit(tuple(tuple(mul(s, x) for x in q) for q in r)), base)
        return I.new_mat(tm.mscale(s, m), base)
    if op == '/':
        if const_of(s) == 0:        # NumPy warns and goes on with NaN or infinite entries
            return I.new_mat(app('nan', m))
        r = lit_rows(m)
        if r is not None and not balances(s):
            return I.new_mat(lit(tuple(tuple(div(x, s) for x in q) for q in r)), base)
        return I.new_mat(tm.mscale(div(1, s), m), base)
    return I.new_mat(app('op' + op, m, s))


def const_op(I, op, a, b):
    a = int(a) if isinstance(a, bool) else a
    b = int(b) if isinstance(b, bool) else b
    cplx = isinstance(a, complex) or isinstance(b, complex)
    try:
        if not cplx and all(tm.finite(x) for x in (a, b)):
            r = num_op(I, op, a, b)
            return r
        fa = float(a) if isinstance(a, Fr) else a
        fb = float(b) if isinstance(b, Fr) else b
        if op in '+-*':
            return tm.add(a, b) if op == '+' else tm.sub(a, b) if op == '-' else tm.mul(a, b)
        if op == '/':
            return div(a, b)
        return eval('x ' + op + ' y', {'x': fa, 'y': fb})
    except ZeroDivisionError:
        raise TargetRaise('ZeroDivisionError', I.loc())


def num_op(I, op, a, b):
    try:
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return div(a, b)
        if op == '**':
            return power(a, b)
    except ZeroDivisionError:
        raise TargetRaise('ZeroDivisionError', I.loc())
    ca, cb = const_of(a), const_of(b)
    if op == '//':
        if ca is not None and cb:
            return int(ca // cb)
        if is_number(a) and is_number(b):
            q = div(a, b)
            if isinstance(q, int) or (isinstance(q, T) and q.kind == 'int'):
                return q
            return tm.to_int(q) if True else None
    if op == '%':
        if ca is not None and cb:
            r = ca % cb
            return int(r) if r.denominator == 1 else r
        return mk('mod', a, b, kind='int' if kind_of(a) == kind_of(b) == 'int' else 'real')
    if op in ('<<', '>>') and ca is not None and cb is not None:
        return int(ca) << int(cb) if op == '<<' else int(ca) >> int(cb)
    if op == '<<':
        return mul(a, power(2, b))
    if op == '>>':
        return mk('call', '>>', a, b, kind='int')
    if op == '@':
        return mul(a, b)
    if ca is not None and cb is not None and op in '&|^':
        return {'&': int(ca) & int(cb), '|': int(ca) | int(cb), '^': int(ca) ^ int(cb)}[op]
    return mk('call', op, a, b, kind='int')


def kind_of(v):
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, (float, Fr)):
        return 'real'
    return v.kind if isinstance(v, T) else 'num'


def str_op(I, op, a, b):
    if op == '+':
        for x in (a, b):
            if not isinstance(x, str) and not (isinstance(x, T) and I.scalar(x).kind in ('str', 'any')):
                raise TargetRaise('TypeError', I.loc(), 'str + non-str')
        return cat(a, b)
    if op == '*' and isinstance(a, str) and isinstance(b, int):
        return a * b
    if op == '%' and isinstance(a, str):
        vs = list(b) if isinstance(b, tuple) else [b]
        if a.count('%s') == len(vs) == a.count('%'):
            parts, segs = [], a.split('%s')
            for i, s in enumerate(segs):
                parts.append(s)
                if i < len(vs):
                    parts.append(to_str(I, vs[i]))
            return cat(*parts)
    return mk('call', 'str' + op, I.vt(a), I.vt(b), kind='str')


def elementwise1(I, v, f, name):
    v = I.mat(v)
    if is_scalar(I, v):
        return f(num(I, v))
    if isinstance(v, tuple):
        return I.new_list([It(elementwise1(I, x, f, name)) for x in v], True)
    o = I.o(v)
    if o is not None and o.kind == 'mat':
        r = lit_rows(o.m)
        if r is not None:
            return I.new_mat(lit(tuple(tuple(f(x) for x in q) for q in r)))
        return I.new_mat(app(name, o.m))
    if o is not None and o.kind == 'list':
        return I.new_list(I.map_pieces(o.ps, lambda x: elementwise1(I, x, f, name)), True)
    if isinstance(v, T) and v.kind == 'any':
        return unknown(I, name, [v])
    n = num(I, v)
    if n is not None:
        return f(n)
    return unknown(I, name, [v])


def elementwise2(I, a, b, f, name):
    oa, ob = I.o(a, 'list'), I.o(b, 'list')
    if oa is not None and ob is None and (is_scalar(I, b) or b is None or isinstance(b, (str, Ref))):
        return I.new_list(I.map_pieces(oa.ps, lambda x: f(x, b)), True)
    if ob is not None and oa is None and (is_scalar(I, a) or a is None or isinstance(a, (str, Ref))):
        return I.new_list(I.map_pieces(ob.ps, lambda x: f(a, x)), True)
    if oa is not None and ob is not None:
        z = zip_pieces(I, [oa.ps, ob.ps])
        if z is not None:
            return I.new_list(I.map_pieces(z, lambda p: f(p[0], p[1])), True)
    return unknown(I, name, [a, b])


def zip_pieces(I, pss):
    if all(all(isinstance(p, It) for p in ps) for ps in pss):
        n = min(len(ps) for ps in pss)
        return [It(tuple(ps[i].v for ps in pss)) for i in range(n)]
    if all(len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It)
           for ps in pss):
        k = pss[0][0].k
        n = pss[0][0].n
        vs = []
        for ps in pss:
            p = ps[0]
            if I.entails(cmp_eq(p.n, n)) is not True:
                from .interp import smin
                if I.entails(cmp_le(p.n, n)) is True:
                    n = p.n
                elif I.entails(cmp_le(n, p.n)) is not True:
                    n = smin(n, p.n)
            vs.append(p.ps[0].v if p.k is k else I.inst_value(p.ps[0].v, {p.k: k}))
        return [For(k, n, [It(tuple(vs))])]
    return None


def inplace(I, op, cur, ev):
    cur = I.mat(cur) if isinstance(cur, T) else cur
    if isinstance(cur, Ref):
        o = I.obj(cur)
        if o.kind == 'karr':
            return konst.inplace(I, op, cur, ev())
        if o.kind == 'list' and not o.arr and op == '+':
            v = ev()
            o = I.obj(cur)
            ps = I.pieces(v)
            if ps:
                I.wrote(cur, 'extend')
            o.ps = list(o.ps) + list(ps)
            return cur
        if o.kind in ('mat', 'list', 'set', 'dict') and not (o.kind == 'list' and not o.arr):
            v = ev()
            r = binop(I, op, cur, v)
            I.wrote(cur, 'inplace' + op)
            o = I.obj(cur)
            ro = I.o(r)
            if ro is not None and ro.kind == o.kind:
                if o.kind == 'mat':
                    o.m = ro.m
                else:
                    o.ps = list(ro.ps)
            elif o.kind == 'mat':
                o.m = app('inplace', o.m, I.vt(r))
            return cur
    return binop(I, op, cur, ev())


# ---------------------------------------------------------------- comparison
def compare(I, op, a, b):
    if op != 'in' and (konst.is_karr(I, a) or konst.is_karr(I, b)):
        r = konst.binop(I, op, a, b)
        if r is not None:
            return r
    if isinstance(a, T):
        a = I.scalar(a)
    if isinstance(b, T):
        b = I.scalar(b)
    if is_scalar(I, a) and is_scalar(I, b):
        if op == '==' and (isinstance(a, bool) or isinstance(b, bool) or getattr(a, 'kind', '') == 'bool'
                           or getattr(b, 'kind', '') == 'bool'):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, bool) and isinstance(y, T) and y.kind == 'bool':
                    return y if x else lnot(y)
            if all(isinstance(x, T) and x.kind == 'bool' for x in (a, b)):
                return lor(land(a, b), land(lnot(a), lnot(b)))
        x, y = num(I, a), num(I, b)
        if not tm.finite(x if not isinstance(x, T) else 0) or not tm.finite(y if not isinstance(y, T) else 0):
            return inf_cmp(op, x, y)
        if op == '==':
            return I.canon(norm(cmp_eq(x, y)))
        if op == '<':
            return norm(cmp_lt(x, y))
        if op == '<=':
            return norm(cmp_le(x, y))
        if op == '>':
            return norm(cmp_lt(y, x))
        if op == '>=':
            return norm(cmp_le(y, x))
    if isinstance(a, T) and a.kind == 'any' or isinstance(b, T) and b.kind == 'any':
        a, b = I.mat(a), I.mat(b)
    if op == '==':
        return equal(I, a, b)
    oa, ob = I.o(a), I.o(b)
    for x, y, o in ((a, b, oa), (b, a, ob)):
        if o is not None and o.kind == 'mat':
            if is_scalar(I, y):
                fl = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
                return mk('mask', op if x is a else fl[op], o.m, num(I, y))
            return mk('mask', op, I.vt(a), I.vt(b))
    if (oa is not None and oa.kind == 'list') or (ob is not None and ob.kind == 'list'):
        return elementwise2(I, a, b, lambda x, y: compare(I, op, x, y), 'cmp' + op)
    if a is None or b is None:
        raise TargetRaise('TypeError', I.loc(), 'ordering with None')
    if isinstance(a, str) and isinstance(b, str):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    for x, nm in ((oa, {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]),):
        if x is not None and x.kind == 'inst' and isinstance(x.cls, Cls):
            m = x.cls.find(nm)
            if m is not None:
                return I.call(Bound(m, a), [b], {})
            raise TargetRaise('TypeError', I.loc(), 'ordering')
    na, nb = num(I, a), num(I, b)
    if na is not None and nb is not None:
        return {'<': cmp_lt, '<=': cmp_le}[op](na, nb) if op[0] == '<' else \
            {'>': cmp_lt, '>=': cmp_le}[op](nb, na)
    if isinstance(a, Ref) or isinstance(b, Ref):
        raise TargetRaise('TypeError', I.loc(), 'ordering of unordered values')
    return mk('cmp' + op, I.vt(a), I.vt(b), kind='bool')


def inf_cmp(op, x, y):
    if isinstance(x, T) and isinstance(y, float):
        if y == float('inf'):
            return op in ('<', '<=')
        if y == float('-inf'):
            return op in ('>', '>=')
    if isinstance(y, T) and isinstance(x, float):
        return inf_cmp({'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '=='}[op], y, x)
    if not isinstance(x, T) and not isinstance(y, T):
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y}[op]
    return False if op == '==' else mk('cmp' + op, repr(x), repr(y), kind='bool')


def equal(I, a, b):
    if a is b and not (isinstance(a, Ref) and I.obj(a).kind in ('mat',)) and not (
            isinstance(a, Ref) and I.obj(a).kind == 'list' and I.obj(a).arr):
        return True
    if a is None or b is None:
        x = b if a is None else a
        return I.is_none(x)
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return land(*[I.boolv(compare(I, '==', x, y)) for x, y in zip(a, b)])
    if isinstance(a, (Cls, Ext, Func)) or isinstance(b, (Cls, Ext, Func)):
        if isinstance(a, (Cls, Ext, Func)) and isinstance(b, (Cls, Ext, Func)):
            return a is b
        return False if isinstance(a, Ref) or isinstance(b, Ref) else mk('eq', I.vt(a), I.vt(b), kind='bool')
    oa, ob = I.o(a), I.o(b)
    for o, x, y in ((oa, a, b), (ob, b, a)):
        if o is not None and o.kind == 'inst' and isinstance(o.cls, Cls):
            m = o.cls.find('__eq__')
            if m is not None:
                return I.call(Bound(m, x), [y], {})
    for o, x, y, oy in ((oa, a, b, ob), (ob, b, a, oa)):
        if o is not None and o.kind == 'list' and o.arr:
            if oy is not None and oy.kind == 'inst' or is_scalar(I, y) or oy is None or oy.kind == 'list':
                return elementwise2(I, a, b, lambda p, q: compare(I, '==', p, q), 'cmp==')
    if oa is not None and ob is not None:
        if oa.kind == 'inst' and ob.kind == 'inst':
            if a is b:
                return True
            if oa.own or ob.own or (oa.ext and ob.ext):
                if oa.cls is not ob.cls or oa.cls.is_enum():
                    return False
                return mk('is', mk('addr', a.a), mk('addr', b.a), kind='bool')
            return False
        if oa.kind == 'mat' or ob.kind == 'mat':
            return mk('mask', '==', I.vt(a), I.vt(b))
        if oa.kind == ob.kind:
            x, y = I.vt(a), I.vt(b)
            if x is y:
                return True
            if oa.kind == 'list' and all(isinstance(p, It) for p in oa.ps + ob.ps):
                if len(oa.ps) != len(ob.ps):
                    return False
                return land(*[I.boolv(compare(I, '==', p.v, q.v)) for p, q in zip(oa.ps, ob.ps)])
            ne = lnot(cmp_eq(I.seqlen(oa.ps), I.seqlen(ob.ps)))
            if I.entails(ne) is True:
                return False
            return mk('eq', *sorted((x, y)), kind='bool')
        return False
    if (oa is not None) != (ob is not None):
        x = b if oa is not None else a
        if isinstance(x, (str, bool, int, float, tuple)):
            return False
    x, y = I.vt(a), I.vt(b)
    if isinstance(x, T) and x.kind == 'str' and isinstance(y, str) or \
            isinstance(y, T) and y.kind == 'str' and isinstance(x, str) or isinstance(x, T) or isinstance(y, T):
        return I.canon(cmp_eq(x, y)) if not (is_number(x) != is_number(y)) else mk('eq', *(
            (x, y) if isinstance(x, T) else (y, x)), kind='bool')
    return x == y


def contains(I, c, x):
    from .interp import exists_t
    c = I.mat(c)
    if isinstance(c, Ext):
        return mk('in', I.vt(x), c.name, kind='bool')
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (str, T)) and not (isinstance(c, T) and c.kind == 'any'):
        return mk('in', I.vt(x), I.vt(c), kind='bool')
    if isinstance(c, Ref) and I.obj(c).kind == 'inst' and isinstance(I.obj(c).cls, Cls):
        m = I.obj(c).cls.find('__contains__')
        if m is not None:
            return I.boolv(I.call(Bound(m, c), [x], {}))
    ps = I.pieces(c)

    def go(ps):
        out = False
        for p in ps:
            if isinstance(p, It):
                out = lor(out, I.boolv(compare(I, '==', p.v, x)))
            elif isinstance(p, For):
                out = lor(out, exists_t(p.k, p.n, go(p.ps)))
            elif isinstance(p, If):
                out = lor(out, land(p.c, go(p.ps)))
            elif isinstance(p, Perm):
                out = lor(out, go(p.ps))
            else:
                out = lor(out, mk('in', I.vt(x), p.t, kind='bool'))
        return out
    return go(ps)


# ---------------------------------------------------------------- subscripts
def getitem(I, o, i):
    o = I.mat(o)
    if konst.is_karr(I, o):
        return konst.getitem(I, o, i)
    if konst.on(I) and isinstance(o, Ref) and I.obj(o).kind == 'mat' and not isinstance(i, int):
        try:
            return konst.getitem(I, konst.wrap(I, konst.const(I, o)), i)
        except konst.NotConst:
            pass
    if konst.is_karr(I, i):
        i = konst.scalar(I, i)
    if isinstance(i, T):
        i = I.scalar(i)
    if isinstance(o, tuple):
        if isinstance(i, slice):
            return o[i]
        c = const_of(i)
        if c is not None:
            if -len(o) <= int(c) < len(o):
                return o[int(c)]
            raise TargetRaise('IndexError', I.loc(), 'tuple index')
        return I.at([It(x) for x in o], i)
    if isinstance(o, Cls) and o.is_enum():
        for m in o.members:
            if I.obj(m).f['name'] == i:
                return m
        raise Unsupported('enum lookup')
    if isinstance(o, Cls):
        return o
    if isinstance(o, str):
        if isinstance(i, int):
            return o[i]
        if isinstance(i, slice) and all(x is None or isinstance(x, int) for x in (i.start, i.stop, i.step)):
            return o[i]
        return mk('call', 'stritem', o, repr(i), kind='str')
    if isinstance(o, Ref):
        ob = I.obj(o)
        if ob.kind == 'list':
            if isinstance(i, slice):
                return I.new_list(I.slice(ob.ps, i.start, i.stop, i.step), ob.arr)
            if isinstance(i, tuple):
                if len(i) == 1:
                    return getitem(I, o, i[0])
                if len(i) == 2 and not isinstance(i[0], slice):
                    return getitem(I, getitem(I, o, i[0]), i[1])
                return unknown(I, 'getitem', [o] + [x for x in i])
            io = I.o(i, 'list')
            if io is not None and ob.arr:
                if all(isinstance(p, It) and (isinstance(p.v, bool) or (isinstance(p.v, T) and p.v.kind == 'bool'))
                       for p in io.ps):
                    return unknown(I, 'boolmask', [o, i])
                return I.new_list(I.map_pieces(io.ps, lambda x: I.at(ob.ps, num(I, x))), True)
            n = num(I, i)
            if n is None:
                raise TargetRaise('TypeError', I.loc(), 'index')
            return I.at(ob.ps, n)
        if ob.kind == 'dict':
            return dict_get(I, o, i)
        if ob.kind == 'mat':
            r = lit_rows(ob.m)
            if r is not None:
                ii = i if isinstance(i, tuple) else (i,)
                if all(isinstance(x, int) for x in ii):
                    v = r[ii[0]]
                    if len(ii) == 1:
                        return I.new_list([It(x) for x in v], True)
                    return v[ii[1]]
            if isinstance(i, tuple) and all(is_scalar(I, x) for x in i):
                return mk('entry', ob.m, *[num(I, x) for x in i], kind='num')
            return I.new_mat(app('getitem', ob.m, mk('ix', repr_ix(I, i)))) if isinstance(i, (tuple, slice)) else \
                unknown(I, 'getitem', [o, i])
        if ob.kind == 'inst' and isinstance(ob.cls, Cls):
            m = ob.cls.find('__getitem__')
            if m is not None:
                return I.call(Bound(m, o), [i], {})
            raise TargetRaise('TypeError', I.loc(), 'not subscriptable')
        return unknown(I, 'getitem', [o, i])
    if isinstance(o, T):
        if o.kind == 'str':
            return mk('call', 'stritem', o, repr(i), kind='str')
        if o.kind in tm.NUMK + ('bool',):
            raise TargetRaise('TypeError', I.loc(), 'number is not subscriptable')
        if o.op in SPECTRA and const_of(i) in (0, -1):
            return spectral(I, o, 'max' if (const_of(i) == 0) == (o.op == 'svals') else 'min')
        return mk('item', o, I.vt(i) if not isinstance(i, (slice, tuple)) else repr_ix(I, i))
    if isinstance(o, Ext):
        return unknown(I, 'item:' + o.name, [i])
    raise TargetRaise('TypeError', I.loc(), 'not subscriptable')


def repr_ix(I, i):
    if isinstance(i, slice):
        return mk('sl', *[I.vt(x) if x is not None else 'None' for x in (i.start, i.stop, i.step)])
    if isinstance(i, tuple):
        return mk('ixt', *[repr_ix(I, x) for x in i])
    return I.vt(i)


def dict_get(I, d, key, default=NotImplemented):
    from .interp import exists_t
    ob = I.obj(d)
    for p in reversed(ob.ps):
        if isinstance(p, It):
            c = I.boolv(compare(I, '==', p.v[0], key))
            if I.decide(c):
                return p.v[1]
        elif isinstance(p, For) and len(p.ps) == 1 and isinstance(p.ps[0], It):
            kk, vv = p.ps[0].v
            here = exists_t(p.k, p.n, I.boolv(compare(I, '==', kk, key)))
            if default is NotImplemented and p is ob.ps[0]:
                I.require(here, 'key present')
            elif not I.decide(here):
                continue
            if isinstance(key, T) and isinstance(kk, T) and key.op == kk.op and key.args[:1] == kk.args[:1] and \
                    kk.args[1:2] == (p.k,):
                ix = key.args[1]
            elif isinstance(key, Ref) or isinstance(kk, Ref):
                ix = mk('kidx', I.vt(d), I.vt(key), kind='int')
            else:
                ix = mk('kidx', I.vt(d), I.vt(key), kind='int')
            return I.inst_value(vv, {p.k: ix})
        else:
            return unknown(I, 'dictget', [d, key])
    if default is NotImplemented:
        raise TargetRaise('KeyError', I.loc(), 'key')
    return default


def dict_set(I, d, key, v, quiet=False):
    ob = I.obj(d)
    if not quiet:
        I.wrote(d, 'setitem')
    for i, p in enumerate(ob.ps):
        if isinstance(p, It):
            c = compare(I, '==', p.v[0], key)
            if I.entails(I.boolv(c)) is True:
                ob.ps[i] = It((key, v))
                return
    ob.ps.append(It((key, v)))


def setitem(I, o, i, v):
    o = I.mat(o)
    if konst.is_karr(I, o):
        return konst.setitem(I, o, i, v)
    if konst.is_karr(I, i):
        i = konst.scalar(I, i)
    if isinstance(i, T):
        i = I.scalar(i)
    if not isinstance(o, Ref):
        I.ev('opaque_write', what='item')
        return
    ob = I.obj(o)
    if ob.kind == 'dict':
        return dict_set(I, o, i, v)
    if ob.kind == 'list':
        I.wrote(o, 'setitem')
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                ob.ps = list(I.pieces(v))
                return
            ob.ps = [Mu(mk('setslice', I.lterm(ob.ps), repr_ix(I, i), I.vt(v)))]
            return
        c = const_of(i) if is_number(i) else None
        if c is not None and all(isinstance(p, It) for p in ob.ps):
            if -len(ob.ps) <= int(c) < len(ob.ps):
                ob.ps[int(c)] = It(v)
                return
            raise TargetRaise('IndexError', I.loc(), 'assignment index')
        n = I.seqlen(ob.ps)
        if is_number(i) and len(ob.ps) == 1 and isinstance(ob.ps[0], For) and ob.ps[0].k is i and i in I.st.ctx \
                and len(ob.ps[0].ps) == 1:
            ob.ps = [For(ob.ps[0].k, ob.ps[0].n, [It(v)])]
            return
        I.ev('slot', addr=o.a, index=I.vt(i) if not isinstance(i, tuple) else repr_ix(I, i), value=I.vt(v),
             before=I.lterm(ob.ps))
        k = fresh_idx()
        ver = mk('upd', I.lterm(ob.ps), I.vt(i) if not isinstance(i, tuple) else repr_ix(I, i), I.vt(v))
        ob.ps = [For(k, n, [It(mk('slot', ver, k))])]
        return
    if ob.kind == 'mat':
        base = ob.base if isinstance(ob.base, tuple) else None
        target = base[1] if base else o
        tol = clean_tol(I, i, ob.m, v)
        I.wrote(target, 'setitem' if tol is None else 'clean')
        to = I.obj(target)
        if tol is not None:
            I.ev('clean', tol=tol)
            if tol > TINY:
                to.m = tm.from_mat({(tm.m_atom('cleaned', to.m, tol, base[2] if base else ''),): 1})
            return
        r = lit_rows(to.m)
        if r is not None and not base and isinstance(i, tuple) and all(isinstance(x, int) for x in i) and \
                is_scalar(I, v):
            rows = [list(q) for q in r]
            rows[i[0]][i[1]] = num(I, v)
            to.m = lit(tuple(tuple(q) for q in rows))
            return
        to.m = app('setitem', to.m, repr_ix(I, i), I.vt(v), base[2] if base else '')
        return
    if ob.kind == 'inst' and isinstance(ob.cls, Cls):
        m = ob.cls.find('__setitem__')
        if m is not None:
            I.call(Bound(m, o), [i, v], {})
            return
    I.ev('opaque_write', what='item')


def clean_tol(I, mask, m, v):
    '''Tolerance of a "zero the tiny entries" masked write.'''
    if not (isinstance(mask, T) and mask.op == 'mask' and is_number(v) and const_of(v) == 0):
        return None
    op, x, c = mask.args
    if op not in ('<', '<=') or const_of(c) is None:
        return None
    w = tm.single_word(x)
    if w and len(w) == 1 and w[0].op == 'call' and w[0].args[0] == 'abs':
        inner = w[0].args[1]
        if inner is m or part_of(inner) is not None and part_of(inner) is part_of(m) and inner is m:
            return const_of(c)
    return None


def part_of(m):
    w = tm.single_word(m)
    if w and len(w) == 1 and w[0].op == 'part':
        return w[0].args[0]
    return None


def delitem(I, o, i):
    if isinstance(o, Ref):
        ob = I.obj(o)
        I.wrote(o, 'delitem')
        if ob.kind == 'list' and not isinstance(i, slice):
            c = const_of(i)
            if c == 0:
                _, ob.ps = I.peel(ob.ps)
                return
            if c == -1:
                _, ob.ps = I.peel(ob.ps, False)
                return
        if ob.kind == 'list' and isinstance(i, slice) and i.step is None:
            # del xs[:n] / del xs[n:]
            if i.start is None and i.stop is None:
                ob.ps = []
                return
            if i.start in (None, 0) and i.stop is not None:
                ob.ps = I.slice(ob.ps, i.stop, None, None)
                return
            if i.stop is None:
                ob.ps = I.slice(ob.ps, None, i.start, None)
                return
        if ob.kind == 'dict':
            for j, p in enumerate(ob.ps):
                if isinstance(p, It) and I.entails(I.boolv(compare(I, '==', p.v[0], i))) is True:
                    del ob.ps[j]
                    return
        if ob.kind in ('list', 'dict'):
            ob.ps = [Mu(mk('del', I.lterm(ob.ps), repr_ix(I, i)))]


# ---------------------------------------------------------------- attributes and methods of values
def value_attr(I, o, name):
    if isinstance(o, Ref):
        ob = I.obj(o)
        if ob.kind == 'karr':
            return konst.attr(I, o, name)
        if ob.kind == 'mat':
            if name == 'T':
                return I.new_mat(tm.transpose(ob.m), ob.base if ob.base == 'sparse' else None)
            if name == 'shape':
                return mshape(I, ob.m)
            if name in ('real', 'imag'):
                r = lit_rows(ob.m)
                return I.new_mat(tm.from_mat({(tm.m_atom('part', ob.m, name),): 1}), ('view', o, name))
            if name == 'ndim':
                return 2
            if name == 'size':
                a, b = mshape(I, ob.m)
                return mul(a, b)
            if name == 'dtype':
                return mk('dtype', ob.m)
            return Meth(o, name)
        if ob.kind == 'list' and ob.arr:
            if name == 'T':
                return I.new_list([Mu(mk('T', I.lterm(ob.ps)))] if any(
                    not is_scalar(I, p.v) for p in ob.ps if isinstance(p, It)) else ob.ps, True)
            if name == 'shape':
                return (I.seqlen(ob.ps),)
            if name == 'size':
                return I.seqlen(ob.ps)
            if name == 'ndim':
                return 1
            if name == 'dtype':
                return mk('dtype', I.lterm(ob.ps))
        return Meth(o, name)
    if isinstance(o, T):
        if o.kind in tm.NUMK:
            if name == 'real':
                return o if tm.real_like(o) else mk('re', o, kind='real')
            if name == 'imag':
                return 0 if tm.real_like(o) else mk('im', o, kind='real')
        if o.op == 'call' or o.kind == 'any':
            if name == 'shape':
                k = mk('shapeof', o)
                return k
            return Meth(o, name)
        return Meth(o, name)
    if o is None:
        raise TargetRaise('AttributeError', I.loc(), f'None.{name}')
    if isinstance(o, (int, float, complex, Fr)) and name in ('real', 'imag'):
        return getattr(complex(o) if not isinstance(o, Fr) else complex(float(o)), name)
    return Meth(o, name)


def set_value_attr(I, o, name, v):
    ob = I.obj(o)
    if ob.kind == 'mat' and name in ('real', 'imag'):
        I.wrote(o, name)
        ob.m = app('setpart', ob.m, name, I.vt(v))
        return
    I.wrote(o, name)
    if ob.kind == 'mat':
        ob.m = app('setattr', ob.m, name)
    I.ev('opaque_write', what=name)


CONSTS = {'numpy.pi': tm.PI, 'math.pi': tm.PI, 'numpy.e': mk('const_e', kind='real'), 'numpy.newaxis': None,
          'numpy.inf': float('inf'), 'math.inf': float('inf'), 'numpy.nan': float('nan'),
          'scipy.constants.pi': tm.PI,
          'builtins.NotImplemented': None, 'builtins.__name__': '__name__', 'builtins.__debug__': True,
          'numpy.True_': True, 'numpy.False_': False, 'typing.TYPE_CHECKING': False}


def ext_attr(I, o, name):
    full = o.name + '.' + name
    if full.startswith('np.'):
        full = 'numpy.' + full[3:]
    if full in CONSTS:
        return CONSTS[full]
    return Ext(full)


def call_opaque(I, f, args, kw):
    vs = [I.vt(a) for a in args]
    if any(type(a).__name__ == 'Star' for a in args):
        vs = [I.lterm(a.ps) if type(a).__name__ == 'Star' else I.vt(a) for a in args]
    else:
        vs = list(merge_args(vs))
    a = tm.m_atom('app', f.name, *vs, *[mk('kw', k, I.vt(v)) for k, v in sorted(kw.items())])
    I.ev('callback', name=f.name, args=tuple(vs))
    return I.new_mat(tm.from_mat({(a,): 1}))


def merge_args(vs):
    return [mk('list', *[mk('it', v) for v in vs])]


def call_meth(I, o, name, args, kw):
    o = I.mat(o) if isinstance(o, T) else o
    if isinstance(o, str) or (isinstance(o, T) and o.kind == 'str'):
        return str_meth(I, o, name, args, kw)
    if isinstance(o, Ref):
        ob = I.obj(o)
        if ob.kind == 'karr':
            return konst.method(I, o, name, args, kw)
        h = METHS.get((ob.kind, name))
        if h is None and ob.kind == 'list' and ob.arr:
            h = METHS.get(('arr', name))
        if h is not None:
            return h(I, o, *args, **kw)
        if ob.kind == 'inst':
            if not isinstance(ob.cls, Cls):
                return ext_inst_meth(I, o, ob, name, args, kw)
            raise TargetRaise('AttributeError', I.loc(), name)
        I.ev('unknown_call', name=f'{ob.kind}.{name}')
        if name in ('sort', 'update', 'clear', 'discard', 'add', 'resize', 'fill', 'put', 'itemset', 'setdefault',
                    'popitem', 'partition'):
            I.wrote(o, name)
            if ob.kind in ('list', 'dict', 'set'):
                ob.ps = [Mu(mk('after', name, I.lterm(ob.ps)))]
            elif ob.kind == 'mat':
                ob.m = app(name, ob.m)
            return None
        return mk('call', 'meth:' + name, I.vt(o), *[I.vt(a) for a in args if not isinstance(a, slice)])
    if isinstance(o, T):
        if o.kind in tm.NUMK:
            if name in ('conjugate', 'conj'):
                return tm.conj(o)
            if name == 'item':
                return plain_int(o)
            if name == 'is_integer':
                return mk('isint', o, kind='bool')
            if name == 'bit_length':
                return mk('call', 'bit_length', o, kind='int')
        if (o.kind in tm.NUMK + ('bool',) or o.op == 'mask') and name in ('all', 'any') and not args and not kw:
            return quant(I, o, name == 'all')
        return mk('call', 'meth:' + name, o, *[I.vt(a) for a in args if not isinstance(a, slice)])
    if isinstance(o, (int, float, complex, Fr)):
        if name in ('conjugate', 'conj', 'item'):
            return tm.conj(o)
        if name == 'bit_length' and isinstance(o, int):
            return o.bit_length()
        if name == 'is_integer':
            return const_of(o).denominator == 1
    if isinstance(o, tuple):
        if name == 'index':
            return list_index(I, I.new_list([It(x) for x in o]), *args)
        if name == 'count':
            return unknown(I, 'count', [o] + list(args))
    raise TargetRaise('AttributeError', I.loc(), f'{name} of {o!r}')


def plain_int(v):
    if isinstance(v, T) and v.op == 'npelem':
        return mk('elem', *v.args, kind=v.kind)
    return v


def affix(o, x, end):
    '''Whether a text ends or starts with a constant; None when it is not known what the text is made of.'''
    ps = list(o.args) if o.op == 'cat' else [o]
    while x:
        if not ps:
            return False
        p = ps[-1 if end else 0]
        if isinstance(p, str):
            n = min(len(p), len(x))
            if (p[-n:] != x[-n:]) if end else (p[:n] != x[:n]):
                return False
            x = x[:-n] if end else x[n:]
            ps = ps[:-1] if end else ps[1:]
        elif p.op == 'str' and isinstance(p.args[0], T) and p.args[0].kind == 'list':
            if x[-1 if end else 0] != '[]'[end]:
                return False
            return True if len(x) == 1 else None
        elif p.op == 'sym':
            return mk('affix', end, p, x, kind='bool')
        else:
            return None
    return True


def str_meth(I, o, name, args, kw):
    if name == 'join':
        ps = I.pieces(args[0])
        if all(isinstance(p, It) for p in ps):
            parts = []
            for i, p in enumerate(ps):
                if i:
                    parts.append(o)
                v = p.v
                if isinstance(v, T):
                    v = I.scalar(v)
                if not (isinstance(v, str) or (isinstance(v, T) and v.kind in ('str', 'any'))):
                    raise TargetRaise('TypeError', I.loc(), 'join of non-strings')
                parts.append(v)
            return cat(*parts)
        return tm.join(o, I.lterm(ps))
    if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args) and not kw:
        if hasattr(o, name):
            r = getattr(o, name)(*args)
            if isinstance(r, list):
                return I.new_list([It(x) for x in r])
            return r
    if name == 'format' and isinstance(o, str) and not kw:
        import string
        try:
            parts, i = [], 0
            for txt, fld, spec, conv in string.Formatter().parse(o):
                parts.append(txt)
                if fld is not None:
                    ix = int(fld) if fld.isdigit() else i
                    if fld and not fld.isdigit():
                        raise ValueError
                    i += 1
                    v = args[ix]
                    parts.append(mk('fmt', I.vt(v), spec, kind='str') if spec else to_str(I, v))
            return cat(*parts)
        except (ValueError, IndexError):
            pass
    if name in ('startswith', 'endswith') and len(args) == 1 and isinstance(args[0], str) and isinstance(o, T):
        r = affix(o, args[0], name == 'endswith')
        if r is not None:
            return r
    kind = 'bool' if name in ('startswith', 'endswith', 'isdigit', 'isalpha') else \
        'int' if name in ('count', 'find', 'index') else 'str'
    return mk('call', 'str.' + name, o, *[I.vt(a) for a in args], kind=kind)


METHS = {}


def meth(kind, *names):
    def d(f):
        for n in names:
            METHS[(kind, n)] = f
        return f
    return d


@meth('list', 'append')
def _(I, o, v):
    I.wrote(o, 'append')
    I.obj(o).ps = I.obj(o).ps + [It(v)]


@meth('list', 'extend')
def _(I, o, v):
    ps = I.pieces(v)
    I.wrote(o, 'extend')
    I.obj(o).ps = I.obj(o).ps + list(ps)


@meth('list', 'insert')
def _(I, o, i, v):
    I.wrote(o, 'insert')
    ob = I.obj(o)
    c = const_of(i) if is_number(i) else None
    if c == 0:
        ob.ps = [It(v)] + ob.ps
    elif c is not None and all(isinstance(p, It) for p in ob.ps):
        ps = list(ob.ps)
        ps.insert(int(c), It(v))
        ob.ps = ps
    elif is_number(i) and I.entails(cmp_le(I.seqlen(ob.ps), i)) is True:
        ob.ps = ob.ps + [It(v)]
    else:
        if c == -1:
            last, rest = I.peel(ob.ps, False)
            ob.ps = rest + [It(v), It(last)]
        elif c == 1 and ob.ps:
            if I.decide(cmp_lt(0, I.seqlen(ob.ps))):
                x, rest = I.peel(ob.ps)
                ob.ps = [It(x), It(v)] + rest
            else:
                ob.ps = [It(v)]
        else:
            ob.ps = [Mu(mk('insert', I.lterm(ob.ps), I.vt(i), I.vt(v)))]


@meth('list', 'pop')
def _(I, o, i=-1):
    I.wrote(o, 'pop')
    ob = I.obj(o)
    c = const_of(i) if is_number(i) else None
    if c in (0, -1):
        v, rest = I.peel(ob.ps, c == 0)
        I.obj(o).ps = rest
        return v
    if c is not None and all(isinstance(p, It) for p in ob.ps):
        if -len(ob.ps) <= c < len(ob.ps):
            ps = list(ob.ps)
            v = ps.pop(int(c)).v
            ob.ps = ps
            return v
        raise TargetRaise('IndexError', I.loc(), 'pop index')
    if is_number(i):
        n = I.seqlen(ob.ps)
        if cmp_eq(i, sub(n, 1)) is True:
            v, rest = I.peel(ob.ps, False)
            I.obj(o).ps = rest
            return v
        if c is not None and c in (1, 2, -2):
            held = []
            for _k in range(int(c) if c > 0 else -int(c) - 1):
                v, rest = I.peel(I.obj(o).ps, c > 0)
                held.append(v)
                I.obj(o).ps = rest
            v, rest = I.peel(I.obj(o).ps, c > 0)
            hp = [It(x) for x in held]
            I.obj(o).ps = hp + rest if c > 0 else rest + hp[::-1]
            return v
    v = I.at(ob.ps, i)
    ob.ps = [Mu(mk('popat', I.lterm(ob.ps), I.vt(i)))]
    return v


@meth('list', 'reverse')
def _(I, o):
    I.wrote(o, 'reverse')
    I.obj(o).ps = I.reverse(I.obj(o).ps)


@meth('list', 'clear')
def _(I, o):
    if I.obj(o).ps:
        I.wrote(o, 'clear')
    I.obj(o).ps = []


@meth('list', 'copy')
def _(I, o, **kw):
    return I.new_list(I.obj(o).ps, I.obj(o).arr)


@meth('list', 'remove')
def _(I, o, v):
    I.wrote(o, 'remove')
    I.obj(o).ps = [Mu(mk('remove', I.lterm(I.obj(o).ps), I.vt(v)))]


@meth('list', 'sort')
def _(I, o, **kw):
    I.wrote(o, 'sort')
    ob = I.obj(o)
    ob.ps = I.pieces(call_ext(I, 'builtins.sorted', [o], kw))


@meth('list', 'index')
def list_index(I, o, v, *a):
    ob = I.obj(o)
    for j, p in enumerate(ob.ps):
        if not isinstance(p, It):
            break
        if I.entails(I.boolv(compare(I, '==', p.v, v))) is True and all(
                I.entails(I.boolv(compare(I, '==', q.v, v))) is False for q in ob.ps[:j]):
            return j
    if len(ob.ps) == 1 and isinstance(ob.ps[0], For) and isinstance(v, Ref):
        # the position of an element taken from this very list
        for key, ad in I.st.matz.items():
            if ad == v.a and isinstance(key, T) and key.op in ('elem',):
                e = ob.ps[0].ps[0].v if isinstance(ob.ps[0].ps[0], It) else None
                if isinstance(e, T) and e.op == 'elem' and e.args[0] is key.args[0]:
                    return key.args[1]
            if ad == v.a and isinstance(key, tuple) and key[0] == 'inst':
                e = ob.ps[0].ps[0].v if isinstance(ob.ps[0].ps[0], It) else None
                if isinstance(e, Ref) and e.a == key[1] and len(key[2]) == 1:
                    val = key[2][0][1]
                    if isinstance(val, tuple):
                        return tm_by_id(val[1])
                    return val
    return mk('indexof', I.vt(o), I.vt(v), kind='int')


def tm_by_id(i):
    ids = tm.__dict__.setdefault('_byid', {})
    if i not in ids:
        for t in tm._table.values():
            ids[t.id] = t
    return ids[i]


@meth('list', 'count')
def _(I, o, v):
    return mk('call', 'count', I.vt(o), I.vt(v), kind='int')


@meth('arr', 'tolist')
def _(I, o):
    return I.new_list(I.map_pieces(I.obj(o).ps, plain_int))


@meth('arr', 'astype')
def _(I, o, dtype=None, **kw):
    if isinstance(dtype, Ext) and dtype.name == 'builtins.int':
        return I.new_list(I.map_pieces(I.obj(o).ps, lambda x: np_int(tm.to_int(num(I, x)))), True)
    return I.new_list(I.obj(o).ps, True)


def np_int(v):
    if isinstance(v, T) and v.op == 'elem':
        return mk('npelem', *v.args, kind=v.kind)
    return v


@meth('arr', 'flatten', 'ravel', 'squeeze', 'view')
def _(I, o, *a, **kw):
    return I.new_list(I.obj(o).ps, True)


@meth('arr', 'item')
def _(I, o, *a):
    return plain_int(I.at(I.obj(o).ps, a[0] if a else 0))


for _n in ('sum', 'prod', 'max', 'min', 'all', 'any', 'mean', 'cumsum', 'cumprod', 'argmax', 'argmin', 'take', 'dot',
           'reshape', 'round', 'trace', 'conj', 'conjugate', 'nonzero', 'repeat', 'argsort'):
    def _mk(n):
        def f(I, o, *a, **kw):
            return call_ext(I, 'numpy.' + n, [o] + list(a), kw)
        return f
    METHS[('arr', _n)] = _mk(_n)
    if _n not in ('conj', 'conjugate'):
        METHS[('mat', _n)] = _mk(_n)


@meth('dict', 'items')
def _(I, o):
    return I.new_list(I.obj(o).ps)


@meth('dict', 'keys')
def _(I, o):
    return I.new_list(I.map_pieces(I.obj(o).ps, lambda kv: kv[0]))


@meth('dict', 'values')
def _(I, o):
    return I.new_list(I.map_pieces(I.obj(o).ps, lambda kv: kv[1]))


@meth('dict', 'get')
def _(I, o, k, d=None):
    return dict_get(I, o, k, d)


@meth('dict', 'copy')
def _(I, o):
    return I.ref(DictO(list(I.obj(o).ps)))


@meth('dict', 'clear')
def _(I, o):
    if I.obj(o).ps:
        I.wrote(o, 'clear')
    I.obj(o).ps = []


@meth('dict', 'update')
def _(I, o, other=None, **kw):
    if other is not None:
        oo = I.o(other, 'dict')
        if oo is None:
            I.wrote(o, 'update')
            I.obj(o).ps = [Mu(mk('update', I.lterm(I.obj(o).ps)))]
            return
        for p in oo.ps:
            if isinstance(p, It):
                dict_set(I, o, *p.v)
            else:
                I.wrote(o, 'update')
                I.obj(o).ps.append(p)
    for k, v in kw.items():
        dict_set(I, o, k, v)


@meth('dict', 'setdefault')
def _(I, o, k, d=None):
    if I.truth(contains(I, o, k)):
        return dict_get(I, o, k)
    dict_set(I, o, k, d)
    return d


@meth('dict', 'pop')
def _(I, o, k, *d):
    v = dict_get(I, o, k, *(d or ()))
    delitem(I, o, k)
    return v


@meth('set', 'add')
def _(I, o, v):
    I.wrote(o, 'add')
    I.obj(o).ps = I.obj(o).ps + [It(v)]


@meth('set', 'issubset')
def _(I, o, v):
    return mk('call', 'issubset', I.vt(o), I.vt(v), kind='bool')


@meth('mat', 'astype')
def _(I, o, dtype=None, *a, **kw):
    m = I.obj(o).m
    n = dtype.name if isinstance(dtype, Ext) else dtype
    if n in ('numpy.complex128', 'builtins.complex', 'numpy.complex_', 'complex', 'complex128', 'numpy.cdouble',
             'numpy.clongdouble', 'numpy.complex256'):
        if kw.get('copy', True) is False or (len(a) > 3 and a[3] is False):
            I.ev('maybe_alias', addr=o.a)
            return o
        return I.new_mat(m)
    return I.new_mat(app('astype', m, str(n)))


@meth('mat', 'conj', 'conjugate')
def _(I, o, *a):
    return I.new_mat(tm.mconj(I.obj(o).m), I.obj(o).base if I.obj(o).base == 'sparse' else None)


@meth('mat', 'transpose', 'swapaxes')
def _(I, o, *a):
    return I.new_mat(tm.transpose(I.obj(o).m), I.obj(o).base if I.obj(o).base == 'sparse' else None)


@meth('mat', 'getH')
def _(I, o, *a):
    return I.new_mat(tm.dagger(I.obj(o).m))


@meth('mat', 'copy')
def _(I, o, *a, **k):
    return I.new_mat(I.obj(o).m, I.obj(o).base if I.obj(o).base == 'sparse' else None)


@meth('mat', 'toarray', 'todense', 'A')
def _(I, o, *a, **k):
    return I.new_mat(I.obj(o).m)


@meth('mat', 'tocsr', 'tocsc', 'tocoo')
def _(I, o, *a, **k):
    return I.new_mat(I.obj(o).m, 'sparse')


@meth('mat', 'dot')
def _(I, o, b):
    return binop(I, '@', o, b)


@meth('mat', 'trace')
def _(I, o, *a):
    return tm.trace(I.obj(o).m)


@meth('mat', 'tolist')
def _(I, o):
    r = lit_rows(I.obj(o).m)
    if r:
        return I.new_list([It(I.new_list([It(x) for x in q])) for q in r])
    return unknown(I, 'tolist', [o])


@meth('mat', 'diagonal')
def _(I, o):
    return unknown(I, 'diagonal', [o])


def gen_of(I):
    return getattr(I, 'gen', None) or 'numpy'


def with_gen(I, gen, f, args, kw):
    save = getattr(I, 'gen', None)
    I.gen = gen
    try:
        return f(I, *args, **kw)
    finally:
        I.gen = save


def rng_model(name, python):
    '''The model of a method of a generator object (or of a function of the random module).'''
    if python:
        return PYRANDOM.get(name)
    if name in ('random', 'random_sample', 'rand', 'uniform', 'randint', 'integers', 'choice', 'shuffle', 'permutation',
                'normal', 'standard_normal'):
        return F.get('numpy.random.' + ('random_sample' if name in ('random', 'rand') else name))
    return None


def py_randrange(I, a, b=None, step=1):
    return F['numpy.random.randint'](I, a, b)


def py_randint(I, a, b):
    return F['numpy.random.randint'](I, a, add(num(I, b), 1))


def py_choice(I, a):
    return F['numpy.random.choice'](I, a)


def py_choices(I, a, weights=None, cum_weights=None, k=1):
    return F['numpy.random.choice'](I, a, k, True, weights)


def py_sample(I, a, k, counts=None):
    return F['numpy.random.choice'](I, a, k, False)


def py_uniform(I, a, b):
    return F['numpy.random.uniform'](I, a, b)


def py_shuffle(I, a):
    return F['numpy.random.shuffle'](I, a)


def py_random(I):
    return F['numpy.random.random_sample'](I)


PYRANDOM = dict(randrange=py_randrange, randint=py_randint, choice=py_choice, choices=py_choices, sample=py_sample,
                uniform=py_uniform, shuffle=py_shuffle, random=py_random)


def ext_inst_meth(I, o, ob, name, args, kw):
    if ob.f.get('$rng'):
        I.ev('nondet', source=ob.f['$rng'], name=name)
        f = rng_model(name, ob.f['$rng'].startswith('random.'))
        if f is not None:
            return with_gen(I, ob.f['$gen'], f, args, kw)
        return draw(I, 'other:' + str(ob.f['$rng']), name, [I.vt(a) for a in args], 'num')
    return unknown(I, f'{ob.cls.name}.{name}', [o] + list(args), kw)


# ---------------------------------------------------------------- random draws
def draw(I, gen, dist, params, kind='real', **info):
    st = I.st
    if gen == 'fixed':          # the same value in every run
        dist = 'fixed ' + dist
    t = mk('draw', dist, gen, tuple(params), st.count('draw'), tuple(st.ctx), kind=kind)
    I.ev('draw', gen=gen, dist=dist, term=t, params=tuple(params), **info)
    return t


def seeded(I, name, args, kw):
    '''The generator a generator object draws from: its seed decides.'''
    ts = [I.vt(a) for a in list(args) + list(kw.values()) if a is not None]
    if name == 'random.SystemRandom' or not ts:
        return 'other:' + name
    ts = [y for t in ts if isinstance(t, T) for y in tm.subterms(t) if y.op == 'draw' or symbols(y)]
    gens = {y.args[1] for y in ts if y.op == 'draw'}
    if gens - {'numpy', 'derived'}:
        return 'other:' + name
    return 'derived' if ts else 'fixed'


def call_ext(I, name, args, kw):
    I.stats['calls'] += 1
    if konst.on(I):
        try:
            return konst.call(I, name, args, kw)
        except konst.NotConst:
            args = [konst.scalar(I, konst.as_matrix(I, a)) if konst.is_karr(I, a) and (
                I.obj(a).a.ndim == 2) else konst.scalar(I, a) for a in args]
    f = F.get(name)
    if f is None and name.startswith('math.'):
        f = F.get('numpy.' + name[5:])
    if f is None:
        if name.startswith('random.'):
            I.ev('nondet', source=name, name=name)
            if name[7:] in PYRANDOM:
                return with_gen(I, 'python', PYRANDOM[name[7:]], args, kw)
            if name == 'random.seed':
                return None
            if name in ('random.Random', 'random.SystemRandom'):
                return I.ref(Inst(Ext(name), {'$rng': name, '$gen': seeded(I, name, args, kw)}))
        for s in SEED_SOURCES:
            if name.startswith(s) or name == s.rstrip('.'):
                I.ev('nondet', source=name, name=name)
                for a in args:
                    if isinstance(a, Ref) and I.obj(a).kind == 'list' and name.endswith('shuffle'):
                        return shuffle(I, a, name)
                return draw(I, name, name, [I.vt(a) for a in args], 'num')
        if name.startswith('numpy.random.') or name.startswith('scipy.stats.'):
            if name in ('numpy.random.seed', 'numpy.random.set_state'):
                I.ev('reseed', name=name)
                return None
            if name in ('numpy.random.default_rng', 'numpy.random.RandomState', 'numpy.random.Generator',
                        'numpy.random.PCG64', 'numpy.random.SeedSequence'):
                r = I.ref(Inst(Ext(name), {'$rng': name, '$gen': seeded(I, name, args, kw)}))
                I.ev('nondet', source=name, name=name)
                return r
            return draw(I, 'numpy', name, [I.vt(a) for a in args], 'num')
        cls = name.split('.')[-1]
        if name.startswith('builtins.') and (cls.endswith('Error') or cls in ('Exception', 'StopIteration',
                                                                             'BaseException', 'KeyboardInterrupt')):
            return I.ref(Inst(Ext(name), {'args': tuple(args)}))
        for a in args:
            if isinstance(a, Ref) and I.obj(a).kind in ('list', 'dict', 'mat', 'inst', 'set'):
                I.ev('may_write', addr=a.a, ext=I.obj(a).ext, name=name)
        return unknown(I, name, args, kw)
    try:
        return f(I, *args, **kw)
    except TypeError as e:
        if 'argument' in str(e) and ('positional' in str(e) or 'keyword' in str(e) or 'required' in str(e)):
            return unknown(I, name, [a for a in args if type(a).__name__ != 'Star'], kw)
        raise


@ext('numpy.random.random_sample', 'numpy.random.random', 'numpy.random.rand', 'numpy.random.ranf',
     'numpy.random.sample')
def _(I, size=None):
    if size is None:
        return draw(I, gen_of(I), 'u01', [], 'real')
    k = fresh_idx()
    n = num(I, size) if is_scalar(I, size) else None
    if n is None:
        return unknown(I, 'random_sample', [size])
    if const_of(n) is not None and const_of(n) <= 16:
        return I.new_list([It(draw(I, gen_of(I), 'u01', [], 'real')) for _ in range(int(const_of(n)))], True)
    save = I.st.ctx
    I.st.ctx = save + (k,)
    try:
        d = draw(I, gen_of(I), 'u01', [], 'real')
    finally:
        I.st.ctx = save
    return I.new_list([For(k, n, [It(d)])], True)


@ext('numpy.random.uniform')
def _(I, low=0.0, high=1.0, size=None):
    u = F['numpy.random.random_sample'](I, size)
    lo, hi = num(I, low), num(I, high)
    if const_of(lo) == 0 and const_of(hi) == 1:
        return u
    return binop(I, '+', binop(I, '*', u, sub(hi, lo)), lo)


@ext('numpy.random.randint', 'numpy.random.integers')
def _(I, low, high=None, size=None, dtype=None):
    if high is None:
        low, high = 0, low
    lo, hi = num(I, low), num(I, high)
    if size is not None:
        return draw(I, gen_of(I), 'randint', [lo, hi, I.vt(size)], 'num')
    t = draw(I, gen_of(I), 'index', [sub(hi, lo)], 'int', n=sub(hi, lo), p=None)
    I.add_fact(cmp_le(0, t), 'draw')
    I.add_fact(cmp_lt(t, sub(hi, lo)), 'draw')
    return add(t, lo)


@ext('numpy.random.choice')
def _(I, a, size=None, replace=True, p=None):
    a = I.scalar(a) if isinstance(a, T) else a
    if is_scalar(I, a):
        n = num(I, a)
        k = fresh_idx()
        ps = [It(i) for i in range(int(const_of(n)))] if const_of(n) is not None and const_of(n) <= 64 else \
            [For(k, n, [It(k)])]
    else:
        ps = I.pieces(a)
        n = I.seqlen(ps)
    pv = None
    if p is not None:
        pm = I.mat(p) if isinstance(p, T) else p
        if isinstance(pm, T):
            ty = I.type_of(pm)
            if TYPES_get(pm) and TYPES_get(pm)[0] == 'opt':
                if I.decide(mk('isnone', pm, kind='bool')):
                    pm = None
                else:
                    pm = I.mat(pm)
        if pm is not None:
            pv = pm
    if pv is not None:
        pps = I.pieces(pv)
        np_ = I.seqlen(pps)
        I.require(cmp_eq(n, np_), "'a' and 'p' must have same size")
    I.require(cmp_lt(0, n), "'a' cannot be empty")
    plist = I.lterm(I.pieces(pv)) if pv is not None else None
    sz = num(I, size) if size is not None and is_scalar(I, size) else size
    if size is None or const_of(sz) == 1 and not isinstance(sz, tuple) if size is not None else True:
        if all(isinstance(q, It) for q in ps):
            i = I.choose(len(ps))
            pi = I.pieces(pv)[i].v if pv is not None and all(isinstance(q, It) for q in I.pieces(pv)) else (
                Fr(1, len(ps)) if pv is None else None)
            I.ev('draw', gen=gen_of(I), dist='choice', term=None, params=(), pop=I.lterm(ps), p=plist, pick=i,
                 prob=pi, n=n)
            v = ps[i].v
        else:
            t = draw(I, gen_of(I), 'index', [n, plist], 'int', pop=I.lterm(ps), p=plist, n=n)
            I.add_fact(cmp_le(0, t), 'draw')
            I.add_fact(cmp_lt(t, n), 'draw')
            v = I.at(ps, t)
        return I.new_list([It(v)], True) if size is not None else v
    rep = I.boolv(I.scalar(replace) if isinstance(replace, T) else replace)
    if not isinstance(sz, tuple) and is_number(sz):
        if rep is True:         # independent draws, one per element
            k = fresh_idx()
            save = I.st.ctx
            I.st.ctx = save + (k,)
            try:
                t = draw(I, gen_of(I), 'index', [n, plist], 'int', pop=I.lterm(ps), p=plist, n=n)
                I.add_fact(forall_t_(k, sz, cmp_le(0, t)), 'draw')
                I.add_fact(forall_t_(k, sz, cmp_lt(t, n)), 'draw')
                e = I.at(ps, t)
            finally:
                I.st.ctx = save
            return I.new_list([For(k, sz, [It(e)])], True)
        if rep is False and plist is None and I.entails(cmp_eq(sz, n)) is True:
            r = I.new_list(list(ps), True)
            I.obj(r).ps = [Perm(draw(I, gen_of(I), 'perm', [n], 'any', n=n), list(ps))]
            return r
    D = draw(I, gen_of(I), 'sample', [I.lterm(ps), I.vt(size), I.vt(replace), plist], 'any', pop=I.lterm(ps),
             p=plist, n=n, size=I.vt(size), replace=I.vt(replace))
    k = fresh_idx()
    e = mk('npelem', D, k, kind='int' if population_int(ps) else 'any')
    ELEMKIND[D] = ('npelem', e.kind)
    nn = sz if is_number(sz) else mk('len', D, kind='int')
    if I.vt(replace) is False:
        I.require(cmp_le(nn, n), 'sample larger than population')
        I.add_fact(mk('distinct', mk('list', for_t(nn, D, e.kind)), kind='bool'), 'draw')
        I.add_fact(mk('distinct', I.lterm([For(k, nn, [It(e)])]), kind='bool'), 'draw')
        plain = I.lterm([For(k, nn, [It(mk('elem', D, k, kind=e.kind))])])
        I.add_fact(mk('distinct', plain, kind='bool'), 'draw')
    from .interp import forall_t
    if e.kind == 'int' and len(ps) == 1 and isinstance(ps[0], For) and ps[0].ps[0].v is ps[0].k:
        for op in ('npelem', 'elem'):
            x = mk(op, D, k, kind='int')
            I.add_fact(forall_t(k, nn, land(cmp_le(0, x), cmp_lt(x, ps[0].n))), 'draw')
    return I.new_list([For(k, nn, [It(e)])], True)


def for_t(n, D, kind):
    bv = mk('bv', 1, kind='int')
    return mk('for', bv, n, mk('seq', mk('it', mk('npelem', D, bv, kind=kind))))


def forall_t_(k, n, c):
    from .interp import forall_t
    return forall_t(k, n, c)


def population_int(ps):
    for p in ps:
        if isinstance(p, It):
            if not (isinstance(p.v, int) or (isinstance(p.v, T) and p.v.kind == 'int')):
                return False
        elif isinstance(p, For):
            if not population_int(p.ps):
                return False
        else:
            return False
    return True


def TYPES_get(x):
    from .interp import TYPES
    return TYPES.get(x)


def shuffle(I, a, gen):
    o = I.obj(a)
    I.wrote(a, 'shuffle')
    n = I.seqlen(o.ps)
    t = draw(I, gen, 'perm', [n], 'any', n=n, pop=I.lterm(list(o.ps)))
    if const_of(n) is not None and const_of(n) <= 1:
        return None
    ps = list(o.ps)
    while len(ps) == 1 and isinstance(ps[0], Perm):       # a reordering of a reordering
        ps = list(ps[0].ps)
    o.ps = [Perm(t, ps)]


@ext('numpy.random.shuffle')
def _(I, a):
    a = I.mat(a)
    if isinstance(a, Ref) and I.obj(a).kind == 'list':
        return shuffle(I, a, gen_of(I))
    I.ev('unknown_call', name='numpy.random.shuffle')


@ext('numpy.random.permutation')
def _(I, a):
    if is_scalar(I, a):
        n = num(I, a)
        k = fresh_idx()
        ps = [It(i) for i in range(int(const_of(n)))] if const_of(n) is not None and const_of(n) <= 64 else \
            [For(k, n, [It(k)])]
    else:
        ps = list(I.pieces(a))
    r = I.new_list(ps, True)
    n = I.seqlen(ps)
    I.obj(r).ps = [Perm(draw(I, gen_of(I), 'perm', [n], 'any', n=n, pop=I.lterm(list(ps))), ps)]
    return r


@ext('scipy.stats.unitary_group.rvs', 'scipy.stats.unitary_group')
def _(I, dim, size=1, random_state=None):
    if random_state is not None:
        I.ev('nondet', source='unitary_group.rvs(random_state)', name='random_state')
    d = num(I, dim)
    t = draw(I, 'numpy' if random_state is None else 'other', 'haar', [d], 'any')
    a = tm.m_atom('haar', d, t, unitary=True)
    tm.DIMS[a] = d
    return I.new_mat(tm.from_mat({(a,): 1}))


@ext('builtins.id', 'builtins.hash')
def _(I, v):
    I.ev('nondet', source='object identity', name='id')
    return mk('draw', 'id', 'id', (I.vt(v),), 0, (), kind='int')


for _n in ('time.perf_counter', 'time.time', 'time.process_time', 'time.monotonic', 'time.perf_counter_ns',
           'time.time_ns', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'os.getpid', 'os.urandom',
           'os.environ.get', 'os.getenv', 'uuid.uuid4', 'timeit.default_timer', 'socket.gethostname',
           'platform.node'):
    def _mk(n):
        def f(I, *a, **k):
            I.ev('nondet', source=n, name=n)
            return draw(I, n, 'clock' if 'time' in n else n, [], 'real')
        return f
    F[_n] = _mk(_n)


# ---------------------------------------------------------------- builtins
@ext('builtins.len')
def _(I, v):
    v = I.mat(v)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, Cls) and v.is_enum():
        return len(v.members)
    o = I.o(v)
    if o is not None:
        if o.kind == 'list':
            note_elem(I, o.ps)
            return I.canon(I.seqlen(o.ps))
        if o.kind == 'dict':
            return I.canon(I.seqlen(o.ps))
        if o.kind == 'set':
            if all(isinstance(p, It) and isinstance(p.v, (int, str)) for p in o.ps):
                return len({p.v for p in o.ps})
            note_elem(I, o.ps)
            if I.entails(mk('distinct', I.lterm(o.ps), kind='bool')) is True:
                return I.canon(I.seqlen(o.ps))
            return mk('card', I.lterm(o.ps), kind='int')
        if o.kind == 'mat':
            return mshape(I, o.m)[0]
        if o.kind == 'inst' and isinstance(o.cls, Cls):
            m = o.cls.find('__len__')
            if m is not None:
                return I.call(Bound(m, v), [], {})
    if v is None or isinstance(v, (int, float)) or (isinstance(v, T) and v.kind in tm.NUMK):
        raise TargetRaise('TypeError', I.loc(), 'len()')
    return mk('len', I.vt(v), kind='int')


@ext('builtins.range')
def _(I, a, b=None, step=None):
    lo, hi = (0, a) if b is None else (a, b)
    lo, hi = num(I, lo), num(I, hi)
    if lo is None or hi is None:
        raise TargetRaise('TypeError', I.loc(), 'range of non-integer')
    for x in (lo, hi):
        if isinstance(x, (float, Fr)) or isinstance(x, T) and x.kind == 'real':
            if isinstance(x, T):
                I.ev('need', cond=mk('isint', x, kind='bool'), what='integer range')
            else:
                raise TargetRaise('TypeError', I.loc(), 'range of float')
    st = num(I, step) if step is not None else 1
    cs = const_of(st)
    if cs is None or cs == 0:
        return unknown(I, 'range', [a, b, step])
    n = sub(hi, lo) if cs > 0 else sub(lo, hi)
    if abs(cs) != 1:
        if const_of(n) is None:
            return unknown(I, 'range', [a, b, step])
        return I.new_list([It(i) for i in range(int(const_of(lo)), int(const_of(hi)), int(cs))])
    n = I.canon(n)
    c = const_of(n)
    from .interp import UNROLL
    if c is not None and c <= UNROLL:
        return I.new_list([It(add(lo, i * int(cs))) for i in range(max(0, int(c)))])
    k = fresh_idx()
    return I.new_list([For(k, n, [It(add(lo, k) if cs > 0 else sub(lo, k))])])


@ext('builtins.enumerate')
def _(I, v, start=0):
    ps = iter_order(I, v)
    s = num(I, start)
    out, pos = [], s
    for p in ps:
        if isinstance(p, It):
            out.append(It((pos, p.v)))
            pos = add(pos, 1)
        elif isinstance(p, For) and len(p.ps) == 1 and isinstance(p.ps[0], It):
            out.append(For(p.k, p.n, [It((add(pos, p.k), p.ps[0].v))]))
            pos = add(pos, p.n)
        elif isinstance(p, Perm):
            d = p.d
            e = mk('posin', d, kind='int')
            out.append(Perm(d, I.map_pieces(p.ps, lambda x: (mk('posin', d, I.vt(x), kind='int'), x))))
            pos = add(pos, I.seqlen([p]))
        else:
            n = I.seqlen([p])
            k = mk('enumpos', I.lterm([p]), kind='int')
            out += I.map_pieces([p], lambda x: (mk('enumpos', I.vt(x), *I.st.ctx, kind='int'), x))
            pos = add(pos, n)
    return I.new_list(out)


@ext('builtins.zip')
def _(I, *vs, strict=False):
    z = zip_pieces(I, [iter_order(I, v) for v in vs])
    if z is None:
        return unknown(I, 'zip', list(vs))
    return I.new_list(z)


@ext('builtins.list')
def _(I, v=()):
    v = I.mat(v) if isinstance(v, T) else v
    if isinstance(v, T):
        return I.new_list(I.pieces(v))
    o = I.o(v)
    return I.new_list(iter_order(I, v))


@ext('builtins.tuple')
def _(I, v=()):
    ps = iter_order(I, v)
    if all(isinstance(p, It) for p in ps):
        return tuple(p.v for p in ps)
    return I.new_list(ps)


@ext('builtins.iter')
def _(I, v):
    return I.new_list(iter_order(I, v))


@ext('builtins.next')
def _(I, v, *d):
    o = I.o(v, 'list')
    if o is None:
        return unknown(I, 'next', [v])
    if d and not I.decide(cmp_lt(0, I.seqlen(o.ps))):
        return d[0]
    if o.ps and isinstance(o.ps[0], If) and len(o.ps) == 1:
        pass
    x, rest = I.peel(o.ps)
    I.obj(v).ps = rest
    return x


@ext('builtins.dict')
def _(I, v=None, **kw):
    d = I.ref(DictO([]))
    if v is not None:
        o = I.o(v)
        if o is not None and o.kind == 'dict':
            I.obj(d).ps = list(o.ps)
        else:
            for p in I.pieces(v):
                if isinstance(p, It):
                    k, x = I.unpack(p.v, [None, None])
                    dict_set(I, d, k, x, quiet=True)
                else:
                    I.obj(d).ps += I.map_pieces([p], lambda y: tuple(I.unpack(y, [None, None])))
    for k, x in kw.items():
        dict_set(I, d, k, x, quiet=True)
    return d


@ext('builtins.set', 'builtins.frozenset')
def _(I, v=()):
    return I.ref(SetO(unordered(I.pieces(v))))


@ext('builtins.isinstance')
def isinstance_(I, v, c):
    c = I.lazy(c) if isinstance(c, Lazy) else c
    if isinstance(c, tuple):
        r = False
        for x in c:
            r = lor(r, isinstance_(I, v, x))
        return r
    if isinstance(v, T):
        ty = TYPES_get(v)
        if ty and ty[0] == 'opt':
            n = mk('isnone', v, kind='bool')
            e = I.entails(n)
            if e is True:
                return False
            if e is None:
                if I.decide(n):
                    return False
        v2 = I.scalar(v)
        if v2.kind != 'any':
            v = v2
        else:
            w = I.mat(v)
            if not isinstance(w, Ref) and isinstance(c, Cls):
                ty = I.type_of(v)
                if ty and ty[0] == 'union':
                    names = [x[1].name for x in ty[1] if x[0] == 'cls']
                    if c.name not in names:
                        return False
                    return mk('isinst', v, c.name, kind='bool')
                if ty and ty[0] not in ('cls', 'any'):
                    return False
                return mk('isinst', v, c.name, kind='bool')
            v = w
    if isinstance(c, Cls):
        if isinstance(v, Ref) and I.obj(v).kind == 'inst':
            k = I.obj(v).cls
            return isinstance(k, Cls) and k.subclass_of(c)
        if isinstance(v, T):
            return mk('isinst', v, c.name, kind='bool') if v.kind == 'any' else False
        return False
    n = c.name if isinstance(c, Ext) else str(c)
    k = None
    if isinstance(v, bool) or (isinstance(v, T) and v.kind == 'bool'):
        k = {'builtins.bool', 'builtins.int', 'numbers.Number', 'numbers.Integral', 'numbers.Real', 'builtins.object'}
    elif isinstance(v, int):
        k = {'builtins.int', 'numbers.Number', 'numbers.Integral', 'numbers.Real', 'builtins.object'}
    elif isinstance(v, T) and v.kind == 'int':
        k = {'numpy.integer', 'numpy.int64'} if v.op == 'npelem' else {'builtins.int'}
        k |= {'numbers.Number', 'numbers.Integral', 'numbers.Real', 'builtins.object'}
    elif isinstance(v, (float, Fr)) or (isinstance(v, T) and v.kind == 'real'):
        k = {'builtins.float', 'numbers.Number', 'numbers.Real', 'builtins.object'}
        if n in ('numpy.floating', 'numpy.float64', 'builtins.int') and isinstance(v, T):
            return mk('isinst', v, n, kind='bool')
    elif isinstance(v, complex) or (isinstance(v, T) and v.kind == 'num'):
        k = {'builtins.complex', 'numbers.Number', 'builtins.object'}
    elif isinstance(v, str) or (isinstance(v, T) and v.kind == 'str'):
        k = {'builtins.str', 'builtins.object', 'collections.abc.Sequence', 'collections.abc.Iterable'}
    elif v is None:
        k = {'builtins.object'}
    elif isinstance(v, tuple):
        k = {'builtins.tuple', 'builtins.object', 'collections.abc.Sequence', 'collections.abc.Iterable'}
    elif isinstance(v, Ref):
        o = I.obj(v)
        k = {'list': {'numpy.ndarray'} if o.kind == 'list' and o.arr else {
            'builtins.list', 'collections.abc.Sequence', 'collections.abc.Iterable', 'collections.abc.MutableSequence'},
            'mat': {'numpy.ndarray'} if o.kind == 'mat' and o.base != 'sparse' else {'scipy.sparse.spmatrix'},
            'dict': {'builtins.dict', 'collections.abc.Mapping', 'collections.abc.Iterable'},
            'set': {'builtins.set', 'collections.abc.Iterable'}, 'inst': set(), 'env': set()}[o.kind] | {
                'builtins.object'}
        if o.kind == 'inst' and isinstance(o.cls, Ext):
            k.add(o.cls.name)
    elif isinstance(v, (Func, Bound, OpaqueFn, Cls, Ext)):
        k = {'builtins.object', 'collections.abc.Callable', 'types.FunctionType'} | (
            {'builtins.type'} if isinstance(v, Cls) else set())
    if k is not None:
        return n in k or n.replace('typing.', 'collections.abc.') in k
    return mk('isinst', I.vt(v), n, kind='bool')


@ext('builtins.issubclass')
def _(I, a, b):
    if isinstance(a, Cls) and isinstance(b, Cls):
        return a.subclass_of(b)
    return mk('call', 'issubclass', I.vt(a), I.vt(b), kind='bool')


@ext('builtins.type')
def _(I, v, *a):
    v = I.mat(v)
    if isinstance(v, Ref) and I.obj(v).kind == 'inst':
        return I.obj(v).cls
    o = I.o(v)
    if o is not None:
        return Ext({'list': 'numpy.ndarray' if o.kind == 'list' and o.arr else 'builtins.list', 'dict': 'builtins.dict',
                    'mat': 'numpy.ndarray', 'set': 'builtins.set'}.get(o.kind, 'builtins.object'))
    for n in ('bool', 'int', 'float', 'str', 'tuple', 'complex'):
        if isinstance_(I, v, Ext('builtins.' + n)) is True:
            return Ext('builtins.' + n)
    return mk('typeof', I.vt(v))


@ext('builtins.callable')
def _(I, v):
    v = I.mat(v)
    if isinstance(v, (Func, Bound, OpaqueFn, Cls, Ext, Meth)):
        return True
    if isinstance(v, T) and v.kind == 'any':
        return mk('callable', v, kind='bool')
    return False


@ext('builtins.int', 'numpy.int64', 'numpy.int32', 'operator.index', 'numpy.intp')
def _(I, v=0):
    if isinstance(v, str):
        return int(v)
    n = num(I, v)
    if n is None:
        raise TargetRaise('TypeError', I.loc(), 'int()')
    if isinstance(n, float) and not tm.finite(n):
        raise TargetRaise('OverflowError', I.loc(), 'int(inf)')
    return plain_int(tm.to_int(I.canon(n)))


@ext('builtins.float', 'numpy.float64', 'builtins.complex', 'numpy.complex128')
def _(I, v=0.0, im=0):
    if isinstance(v, str):
        return float(v)
    n = num(I, v)
    if n is None:
        raise TargetRaise('TypeError', I.loc(), 'float()')
    return add(n, mul(1j, num(I, im))) if im != 0 else n


@ext('builtins.str')
def _(I, v=''):
    return to_str(I, v)


@ext('builtins.repr')
def _(I, v):
    return to_repr(I, v)


@ext('builtins.bool', 'numpy.bool_')
def _(I, v=False):
    return I.boolv(v)


@ext('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs')
def _(I, v):
    x = I.mat(v)
    if isinstance(x, T) and x.op in SPECTRA:
        return x if x.op != 'eigs' else mk('abseigs', x.args[0])
    return elementwise1(I, v, tm.absval, 'abs')


@ext('builtins.round', 'numpy.round', 'numpy.around', 'numpy.round_')
def _(I, v, n=None, decimals=None):
    d = n if n is not None else (decimals if decimals is not None else 0)
    return elementwise1(I, v, lambda x: mk('round', x, d, kind='real' if n is not None else 'int')
                        if isinstance(x, T) or isinstance(x, Fr) else round(x, d) if n is not None else round(x), 'round')


@ext('builtins.min', 'builtins.max', 'numpy.minimum', 'numpy.maximum')
def _(I, *vs, **kw):
    raise AssertionError


def _mm(op):
    def f(I, *vs, key=None, default=None):
        from .interp import smin, smax
        if key is not None:
            return unknown(I, op, list(vs))
        if len(vs) == 1:
            return agg(I, op, vs[0])
        ns = [num(I, v) for v in vs]
        if any(n is None for n in ns):
            return unknown(I, op, list(vs))
        ns = [I.canon(n) for n in ns]
        inf = [n for n in ns if isinstance(n, float) and not tm.finite(n)]
        ns = [n for n in ns if n not in inf]
        if inf and ((op == 'min') != (inf[0] > 0)):
            return inf[0]
        # drop operands the facts dominate
        keep = list(ns)
        for x in list(keep):
            for y in keep:
                if y is not x and I.entails(cmp_le(y, x) if op == 'min' else cmp_le(x, y)) is True and len(keep) > 1:
                    keep = [z for z in keep if z is not x]
                    break
        return (smin if op == 'min' else smax)(*keep)
    return f


F['builtins.min'] = F['numpy.minimum'] = F['numpy.fmin'] = _mm('min')
F['builtins.max'] = F['numpy.maximum'] = F['numpy.fmax'] = _mm('max')


SPECTRA = ('svals', 'eigs', 'abseigs')


def spectral(I, v, op):
    '''Largest or smallest singular value / eigenvalue / absolute eigenvalue.'''
    m = v.args[0]
    if v.op == 'eigs':
        return mk('eig' + op, m, kind='real')
    if v.op == 'abseigs' and not any(f.op == 'allclose' and {f.args[0], f.args[1]} == {m, dagger(m)} for f in I.st.facts):
        return mk('abseig' + op, m, kind='real')
    return norm2(m) if op == 'max' else mk('smin', m, kind='real')      # a Hermitian matrix is normal


def agg(I, op, v, axis=None, **kw):
    v = I.mat(v)
    if isinstance(v, T) and v.op in SPECTRA:
        return spectral(I, v, op)
    o = I.o(v)
    if o is not None and o.kind == 'mat':
        return mk('a' + op, o.m, kind='num')
    ps = I.pieces(v)
    if not ps:
        raise TargetRaise('ValueError', I.loc(), f'{op} of empty')
    from .interp import smin, smax
    if all(isinstance(p, It) for p in ps):
        ns = [num(I, p.v) for p in ps]
        if all(n is not None for n in ns):
            return (smin if op == 'min' else smax)(*ns)
        return unknown(I, op, [v])
    note_elem(I, ps)
    I.require(cmp_lt(0, I.seqlen(ps)), f'{op} of a non-empty sequence')
    kind = 'int' if population_int(ps) else 'real'
    if len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It) and \
            is_number(ps[0].ps[0].v) and ps[0].k not in symbols(ps[0].ps[0].v):
        return ps[0].ps[0].v
    return mk('a' + op, I.lterm(ps), kind=kind)


@ext('numpy.max', 'numpy.amax', 'numpy.nanmax')
def _(I, v, axis=None, **kw):
    return agg(I, 'max', v)


@ext('numpy.min', 'numpy.amin', 'numpy.nanmin')
def _(I, v, axis=None, **kw):
    return agg(I, 'min', v)


@ext('numpy.mean', 'numpy.average')
def _(I, v, axis=None, **kw):
    if kw:
        return unknown(I, 'mean', [v])
    ps = I.pieces(v)
    n = I.seqlen(ps)
    if all(isinstance(p, It) for p in ps) and not ps:
        return app('nan', 'mean')
    r = F['numpy.sum'](I, v, axis=0)
    if is_number(r):
        return div(r, n)
    m = as_mat(I, r)
    return I.new_mat(tm.mscale(div(1, n), m)) if m is not None else unknown(I, 'mean', [v])


@ext('numpy.sum')
def _(I, v, axis=None, **kw):
    o = I.o(I.mat(v))
    if o is not None and o.kind == 'mat':
        return unknown(I, 'matsum', [v, axis])
    r = F['builtins.sum'](I, v)
    if axis is None and isinstance(r, Ref) and I.obj(r).kind == 'mat' and I.o(v) is not None and I.o(v).kind == 'list':
        return mk('entrysum', I.obj(r).m, kind='num')
    return r


@ext('builtins.sum', 'math.fsum')
def _(I, v, start=0, **kw):
    axis = None
    v = I.mat(v)
    o = I.o(v)
    if o is not None and o.kind == 'mat':
        return unknown(I, 'matsum', [v, axis])
    ps = I.pieces(v)

    def go(ps):
        tot, mtot = 0, None
        for p in ps:
            if isinstance(p, It):
                x = I.mat(p.v)
                if is_matv(I, x):
                    mtot = I.obj(x).m if mtot is None else tm.madd(mtot, I.obj(x).m)
                else:
                    n = num(I, x)
                    if n is None:
                        raise Unknown
                    tot = add(tot, n)
            elif isinstance(p, For):
                t2, m2 = go(p.ps)
                if m2 is not None:
                    s = tm.summat(p.n, p.k, m2)
                    mtot = s if mtot is None else tm.madd(mtot, s)
                if not (const_of(t2) == 0):
                    tot = add(tot, sumk(p.k, p.n, t2))
            elif isinstance(p, If):
                t2, m2 = go(p.ps)
                if m2 is not None:
                    raise Unknown
                tot = add(tot, mul(mk('b2i', p.c, kind='int'), t2))
            elif isinstance(p, Perm):
                t2, m2 = go(p.ps)
                tot = add(tot, t2)
                if m2 is not None:
                    mtot = m2 if mtot is None else tm.madd(mtot, m2)
            else:
                raise Unknown
        return tot, mtot
    try:
        t, m = go(ps)
    except Unknown:
        return unknown(I, 'sum', [v])
    if m is not None:
        return I.new_mat(m)
    if not is_number(start):
        return unknown(I, 'sum', [v, start])
    return add(t, start)


def sumk(k, n, body):
    '''Sum of body over k = 0 .. n-1.'''
    if not isinstance(body, T) or k not in symbols(body):
        return mul(n, body)
    if const_of(n) is not None and const_of(n) <= 16:
        return sum_([subst(body, {k: i}) for i in range(int(const_of(n)))])
    p = tm.to_poly(body)
    out = 0
    for m, c in p.items():
        inv = tuple((a, e) for a, e in m if k not in symbols(a))
        dep = tuple((a, e) for a, e in m if k in symbols(a))
        f = tm.from_poly({inv: c})
        d = tm.from_poly({dep: tm.ONE})
        if not dep:
            out = add(out, mul(f, n))
            continue
        if dep == ((k, Fr(1)),):
            out = add(out, mul(f, mul(Fr(1, 2), mul(n, sub(n, 1)))))
            continue
        bv = mk('bv', tm.bv_depth(d) + 1, kind='int')
        out = add(out, mul(f, mk('sum', bv, n, subst(d, {k: bv}), kind=d.kind if isinstance(d, T) else 'real')))
    return out


@ext('numpy.all', 'builtins.all', 'numpy.alltrue')
def _(I, v, **kw):
    return quant(I, v, True)


@ext('numpy.any', 'builtins.any')
def _(I, v, **kw):
    return quant(I, v, False)


def quant(I, v, every):
    from .interp import forall_t, exists_t
    v = I.mat(v) if isinstance(v, T) else v
    if isinstance(v, (bool,)) or isinstance(v, T):
        if isinstance(v, T) and v.op == 'mask':
            return mask_quant(I, v, every)
        if isinstance(v, T) and v.op == 'allclose' and not every:
            return mk('anyclose', *v.args, kind='bool')
        return I.boolv(v)
    o = I.o(v)
    if o is not None and o.kind == 'mat':
        return mk('allmat' if every else 'anymat', o.m, kind='bool')

    def go(ps):
        out = every
        for p in ps:
            if isinstance(p, It):
                x = I.boolv(p.v)
            elif isinstance(p, For):
                x = (forall_t if every else exists_t)(p.k, p.n, go(p.ps))
            elif isinstance(p, If):
                x = lor(lnot(p.c), go(p.ps)) if every else land(p.c, go(p.ps))
            elif isinstance(p, Perm):
                x = go(p.ps)
            else:
                x = mk('all' if every else 'any', p.t, kind='bool')
            out = land(out, x) if every else lor(out, x)
        return out
    return go(I.pieces(v))


def mask_quant(I, v, every):
    op, a, b = v.args
    if every and op in ('<', '<='):
        w = tm.single_word(a) if tm.is_mat(a) else None
        if w and len(w) == 1 and w[0].op == 'call' and w[0].args[0] == 'abs':
            return mk('absbound', w[0].args[1], b, op, kind='bool')
    return mk('allmask' if every else 'anymask', v, kind='bool')


def key_source(I, key, ps):
    '''What a sort key depends on other than the elements (their identity, their hash, ...), or None.'''
    if isinstance(key, Ext):
        return 'id' if key.name in ('builtins.id', 'builtins.hash') else None
    p = ps[0]
    while isinstance(p, (For, Perm, If)) and p.ps:
        p = p.ps[0]
    if not isinstance(p, It):
        return None
    try:
        x = I.vt(I.call(key, [p.v], {}))
    except (TargetRaise, Unsupported):
        return None
    return next((y.args[1] for y in tm.subterms(x) if y.op == 'draw' and y.args[1] not in ('numpy', 'derived', 'fixed')),
                None) if isinstance(x, T) else None


@ext('builtins.sorted', 'numpy.sort')
def _(I, v, key=None, reverse=False, **kw):
    o = I.o(v)
    ps = list(I.pieces(v))
    if o is not None and o.kind == 'set':
        ps = uniq(I, unordered(ps)) if key is None else set_order(I, o)
    elif key is None and all(is_pop_scalar(I, q) for p in ps if isinstance(p, Perm) for q in p.ps):
        ps = unordered(ps)
    arr = False
    if all(isinstance(p, It) and is_num_const(p.v) for p in ps) and key is None:
        return I.new_list([It(x) for x in sorted((p.v for p in ps), reverse=bool(reverse))])
    if len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It) and \
            key is None and not reverse:
        x = ps[0].ps[0].v
        if isinstance(x, T) and x.kind == 'int':
            pol = tm.to_poly(sub(x, ps[0].k))
            if ps[0].k not in symbols(sub(x, ps[0].k)):
                return I.new_list(ps)
    if len(ps) <= 1 and all(isinstance(p, It) for p in ps):
        return I.new_list(ps)
    src = key is not None and ps and key_source(I, key, ps)
    if src:
        return I.new_list([Perm(mk('draw', 'sorted', src, (I.lterm(ps),), 0, (), kind='any'), ps)])
    kt = mk('sorted', I.lterm(ps), I.vt(key) if key is not None else None, I.vt(reverse))
    n = I.seqlen(ps)
    if all(is_pop_scalar(I, p) for p in ps):
        k = fresh_idx()
        kind = 'int' if population_int(ps) else 'real'
        return I.new_list([For(k, n, [It(mk('elem', kt, k, kind=kind))])])
    return I.new_list([Perm(kt, ps)])


def is_pop_scalar(I, p):
    if isinstance(p, It):
        return is_scalar(I, p.v)
    if isinstance(p, (For, Perm, If)):
        return all(is_pop_scalar(I, q) for q in p.ps)
    return False


@ext('builtins.reversed', 'numpy.flipud', 'numpy.flip')
def _(I, v):
    o = I.o(v)
    if o is not None and o.kind == 'mat':
        return I.new_mat(app('flip', o.m))
    return I.new_list(I.reverse(I.pieces(v)), bool(o is not None and o.kind == 'list' and o.arr))


@ext('builtins.map')
def _(I, f, *vs):
    if len(vs) == 1:
        ps = I.pieces(vs[0])
    else:
        ps = zip_pieces(I, [I.pieces(v) for v in vs])
        if ps is None:
            return unknown(I, 'map', list(vs))
    acc = I.new_list([])

    def run(v):
        r = I.call(f, list(v) if len(vs) > 1 else [v], {})
        I.obj(acc).ps = I.obj(acc).ps + [It(r)]
    I.loops.iterate(I, ps, run, None)
    return acc


@ext('builtins.filter')
def _(I, f, v):
    acc = I.new_list([])

    def run(x):
        c = I.truth(x) if f is None else I.truth(I.call(f, [x], {}))
        if c:
            I.obj(acc).ps = I.obj(acc).ps + [It(x)]
    I.loops.iterate(I, I.pieces(v), run, None)
    return acc


@ext('functools.reduce')
def _(I, f, v, *init):
    env = I.alloc(EnvO(None, 'comp', I.cur[-1][1] if I.cur else '?', 'reduce'))
    ps = list(I.pieces(v))
    if init:
        I.st.heap[env].v['acc'] = init[0]
    else:
        x, ps = I.peel(ps)
        I.st.heap[env].v['acc'] = x

    def run(x):
        I.st.heap[env].v['acc'] = I.call(f, [I.st.heap[env].v['acc'], x], {})
    I.loops.iterate(I, ps, run, None)
    return I.st.heap[env].v['acc']


@ext('functools.partial')
def _(I, f, *a, **k):
    return I.ref(Inst(Ext('functools.partial'), {'$partial': (f, tuple(a), tuple(k.items()))}))


@ext('builtins.getattr')
def _(I, o, n, *d):
    if not isinstance(n, str):
        raise Unsupported('getattr with computed name')
    try:
        return I.getattr(o, n)
    except TargetRaise:
        if d:
            return d[0]
        raise


@ext('builtins.hasattr')
def _(I, o, n):
    if not isinstance(n, str):
        raise Unsupported('hasattr with computed name')
    try:
        r = I.getattr(o, n)
        if isinstance(r, Meth) and isinstance(r.obj, T):
            return mk('hasattr', r.obj, n, kind='bool')
        return True
    except TargetRaise:
        return False


@ext('builtins.setattr')
def _(I, o, n, v):
    if not isinstance(n, str):
        raise Unsupported('setattr with computed name')
    I.setattr(o, n, v)


@ext('builtins.print', 'warnings.warn', 'logging.debug', 'logging.info', 'logging.warning')
def _(I, *a, **k):
    return None


@ext('builtins.pow', 'numpy.power', 'math.pow')
def _(I, a, b):
    return binop(I, '**', a, b)


@ext('builtins.divmod')
def _(I, a, b):
    return (binop(I, '//', a, b), binop(I, '%', a, b))


@ext('builtins.object')
def _(I):
    return I.ref(Inst(Ext('builtins.object'), {}))


@ext('builtins.slice')
def _(I, *a):
    return slice(*a)


# ---------------------------------------------------------------- copy
@ext('copy.deepcopy')
def deepcopy(I, v, memo=None):
    m = {}

    def cv(v):
        if isinstance(v, T):
            ty = TYPES_get(v)
            if ty and ty[0] == 'opt' and ty[1][0] in ('list', 'dict', 'cls', 'mat'):
                if I.decide(mk('isnone', v, kind='bool')):
                    return None
            if v.kind == 'any':
                v = I.split_union(v)
            w = I.mat(v)
            if isinstance(w, Ref):
                return cv(w)
            return v
        if isinstance(v, tuple):
            return tuple(cv(x) for x in v)
        if isinstance(v, Ref):
            if v.a in m:
                return Ref(m[v.a])
            o = I.obj(v)
            if o.kind == 'env':
                return v
            if o.kind == 'inst' and isinstance(o.cls, Cls):
                if o.cls.is_enum():
                    return v
                d = o.cls.find('__deepcopy__')
                if d is not None:
                    return I.call(Bound(d, v), [I.ref(DictO([]))], {})
            c = o.clone()
            I.next_addr += 1
            a = I.next_addr
            m[v.a] = a
            c.ext = I.st.label
            c.own = tuple(dict.fromkeys(tuple(o.own) + tuple(I.st.ctx)))
            I.st.heap[a] = c
            if c.kind == 'inst':
                c.f = {k: cv(x) for k, x in c.f.items()}
            elif c.kind in ('list', 'dict', 'set'):
                c.ps = I.map_pieces(c.ps, cv)
            elif c.kind == 'mat':
                c.base = c.base if c.base == 'sparse' else None
            return Ref(a)
        return v
    return cv(v)


@ext('copy.copy')
def _(I, v):
    v = I.mat(v)
    if isinstance(v, Ref) and I.obj(v).kind != 'env':
        o = I.obj(v)
        if o.kind == 'inst' and isinstance(o.cls, Cls):
            if o.cls.is_enum():
                return v
            d = o.cls.find('__copy__')
            if d is not None:
                return I.call(Bound(d, v), [], {})
        c = o.clone()
        I.next_addr += 1
        c.ext = I.st.label
        c.own = tuple(dict.fromkeys(tuple(o.own) + tuple(I.st.ctx)))
        I.st.heap[I.next_addr] = c
        return Ref(I.next_addr)
    return v


# ---------------------------------------------------------------- itertools
@ext('itertools.combinations', 'itertools.permutations')
def _(I, v, r):
    ps = I.pieces(v)
    n, r = I.seqlen(ps), num(I, r)
    if const_of(n) is not None and const_of(r) is not None and all(isinstance(p, It) for p in ps):
        import itertools
        return I.new_list([It(tuple(x)) for x in itertools.combinations([p.v for p in ps], int(const_of(r)))])
    if not (len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It)):
        return unknown(I, 'combinations', [v, r])
    c, k = fresh_idx(), fresh_idx()
    ix = mk('comb', n, r, c, k, kind='int')
    e = I.inst_value(ps[0].ps[0].v, {ps[0].k: ix})
    I.add_fact(cmp_le(0, ix), 'lib')
    inner = I.new_list([For(k, r, [It(e)])])
    I.obj(inner).own = tuple(dict.fromkeys(tuple(I.obj(inner).own) + (c,)))
    return I.new_list([For(c, mk('ncomb', n, r, kind='int'), [It(inner)])])


@ext('itertools.chain')
def _(I, *vs):
    out = []
    for v in vs:
        out += I.pieces(v)
    return I.new_list(out)


def flatten(I, ps):
    out = []
    for p in ps:
        if isinstance(p, It):
            out += I.pieces(p.v)
        elif isinstance(p, For):
            out.append(For(p.k, p.n, flatten(I, p.ps)))
        elif isinstance(p, If):
            out.append(If(p.c, flatten(I, p.ps)))
        elif isinstance(p, Perm):
            out.append(Perm(p.d, flatten(I, p.ps)))
        else:
            out.append(p)
    return out


@ext('itertools.chain.from_iterable')
def _(I, v):
    return I.new_list(flatten(I, I.pieces(v)))


@ext('itertools.repeat')
def _(I, v, n=None):
    if n is None:
        return unknown(I, 'repeat', [v])
    return repeat_list(I, [It(v)], num(I, n))


@ext('itertools.product')
def _(I, *vs, repeat=1):
    if all(all(isinstance(p, It) for p in I.pieces(v)) for v in vs):
        import itertools
        return I.new_list([It(tuple(x)) for x in itertools.product(*[[p.v for p in I.pieces(v)] for v in vs])])
    if len(vs) == 2 and repeat == 1:
        acc = I.new_list([])

        def run(x):
            def run2(y):
                I.obj(acc).ps = I.obj(acc).ps + [It((x, y))]
            I.loops.iterate(I, I.pieces(vs[1]), run2, None)
        I.loops.iterate(I, I.pieces(vs[0]), run, None)
        return acc
    return unknown(I, 'product', list(vs))


# ---------------------------------------------------------------- numpy scalars and arrays
@ext('numpy.sqrt')
def _(I, v):
    return elementwise1(I, v, lambda x: power(x, Fr(1, 2)), 'sqrt')


@ext('numpy.cos')
def _(I, v):
    return elementwise1(I, v, lambda x: trig('cos', x), 'cos')


@ext('numpy.sin')
def _(I, v):
    return elementwise1(I, v, lambda x: trig('sin', x), 'sin')


def trig(f, x):
    if const_of(x) == 0:
        return 1 if f == 'cos' else 0
    if isinstance(x, T):
        p = tm.to_poly(x)
        lead = min(p, key=tm._mono_key)
        if p[lead][1] == 0 and p[lead][0] < 0:
            r = mk(f, neg(x), kind='real')
            return r if f == 'cos' else neg(r)
    return mk(f, x, kind='real')


@ext('numpy.exp', 'cmath.exp')
def _(I, v):
    return elementwise1(I, v, lambda x: tm.exp_(x), 'exp')


@ext('numpy.log2', 'math.log2')
def _(I, v):
    return elementwise1(I, v, lambda x: tm.log2(I.canon(x)), 'log2')


@ext('numpy.log', 'math.log')
def _(I, v, base=None):
    if base is not None and const_of(num(I, base)) == 2:
        return tm.log2(I.canon(num(I, v)))
    return elementwise1(I, v, lambda x: mk('ln', x, kind='real'), 'log')


@ext('numpy.ceil', 'numpy.floor', 'numpy.rint', 'numpy.trunc', 'numpy.fix')
def _(I, v, **k):
    return elementwise1(I, v, lambda x: x if kind_of(x) == 'int' else (
        tm.to_int(x) if tm.to_int(x) is x else mk('floorlike', x, kind='int')), 'floorlike')


@ext('numpy.conj', 'numpy.conjugate')
def _(I, v):
    if is_matv(I, v):
        return I.new_mat(tm.mconj(I.o(v).m))
    return elementwise1(I, v, tm.conj, 'conj')


@ext('numpy.real')
def _(I, v):
    return value_attr(I, I.mat(v), 'real') if not is_num_const(v) else v.real


@ext('numpy.imag')
def _(I, v):
    return value_attr(I, I.mat(v), 'imag') if not is_num_const(v) else v.imag


@ext('numpy.isreal')
def _(I, v):
    return True if is_scalar(I, v) and tm.real_like(num(I, v)) else mk('isreal', I.vt(v), kind='bool')


@ext('numpy.isfinite')
def _(I, v):
    return mk('isfinite', I.vt(v), kind='bool')


@ext('numpy.isscalar')
def _(I, v):
    return is_scalar(I, v) or isinstance(v, str)


@ext('numpy.iscomplexobj')
def _(I, v):
    return mk('iscomplex', I.vt(v), kind='bool')


def tolset(kw):
    out = []
    for k in ('rtol', 'atol', 'equal_nan'):
        if k in kw:
            out.append(mk('tol', k, kw[k]))
    return out


@ext('numpy.allclose')
def _(I, a, b, rtol=None, atol=None, **kw):
    return close(I, a, b, rtol, atol)


@ext('numpy.isclose', 'math.isclose')
def _(I, a, b, rtol=None, atol=None, **kw):
    return close(I, a, b, rtol, atol)


def close(I, a, b, rtol, atol):
    ma, mb = as_mat(I, a) if not is_scalar(I, a) else None, as_mat(I, b) if not is_scalar(I, b) else None
    x = I.canon(ma) if ma is not None else I.vt(a)
    y = I.canon(mb) if mb is not None else I.vt(b)
    ex = []
    if rtol is not None:
        ex.append(mk('tol', 'rtol', I.vt(rtol)))
    if atol is not None:
        ex.append(mk('tol', 'atol', I.vt(atol)))
    if x is y and not ex:
        return True
    if isinstance(x, T) and isinstance(y, T) and x is y:
        return True
    if is_num_const(x) and is_num_const(y) and not ex:
        return abs(complex(x) - complex(y)) <= 1e-8 + 1e-5 * abs(complex(y))
    if not isinstance(x, T) or (isinstance(y, T) and y.id < x.id and isinstance(x, T)):
        x, y = (y, x) if tm.is_mat(x) or not is_number(x) else (x, y)
    if has_nan(x) or has_nan(y):
        return False
    op = 'allclose' if tm.is_mat(x) or tm.is_mat(y) else 'isclose'
    if op == 'allclose':
        x, y = sorted((x, y), key=lambda z: z.id if isinstance(z, T) else -1)
    return mk(op, x, y, *ex, kind='bool')


@ext('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'numpy.copy')
def np_array(I, v, dtype=None, copy=True, **kw):
    v = I.mat(v) if isinstance(v, T) else v
    if isinstance(v, tuple):
        v = I.new_list([It(x) for x in v])
    if is_scalar(I, v):
        return num(I, v)
    o = I.o(v)
    if o is None:
        return unknown(I, 'numpy.array', [v])
    if o.kind == 'mat':
        return I.new_mat(o.m)
    if o.kind == 'list':
        m = lit_of(I, o) if o.ps and isinstance(o.ps[0], It) and (I.o(o.ps[0].v, 'list') is not None or isinstance(
            o.ps[0].v, tuple)) else None
        if m is not None:
            return I.new_mat(m)
        if o.ps and all(isinstance(p, It) for p in o.ps) and all(is_matv(I, p.v) for p in o.ps):
            return I.new_list(o.ps, True)
        return I.new_list(I.map_pieces(o.ps, np_int), True)
    return unknown(I, 'numpy.array', [v])


@ext('numpy.asarray', 'numpy.asanyarray')
def _(I, v, dtype=None, **kw):
    v = I.mat(v) if isinstance(v, T) else v
    o = I.o(v)
    if o is not None and (o.kind == 'mat' or (o.kind == 'list' and o.arr)):
        return v
    return np_array(I, v, dtype)


@ext('numpy.identity', 'numpy.eye')
def _(I, n, m=None, **kw):
    n = num(I, n)
    if n is None:
        raise TargetRaise('TypeError', I.loc(), 'identity')
    return I.new_mat(tm.ident(I.canon(n)))


@ext('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty')
def _(I, shape, fill=0, **kw):
    raise AssertionError


def _fill(val):
    def f(I, shape, *a, **kw):
        v = val if val is not None else (a[0] if a else kw.get('fill_value', 0))
        sh = I.mat(shape) if isinstance(shape, T) else shape
        if isinstance(sh, tuple) and len(sh) == 1:
            sh = sh[0]
        if isinstance(sh, tuple) or I.o(sh, 'list') is not None:
            dims = list(sh) if isinstance(sh, tuple) else [p.v for p in I.o(sh, 'list').ps if isinstance(p, It)]
            cs = [const_of(num(I, d)) for d in dims]
            if len(cs) == 2 and all(c is not None and c <= 64 for c in cs):
                return I.new_mat(lit(tuple(tuple(v for _ in range(int(cs[1]))) for _ in range(int(cs[0])))))
            return I.new_mat(app('fill', I.vt(v), *[I.vt(d) for d in dims]))
        return repeat_arr(I, v, num(I, sh))
    return f


def repeat_arr(I, v, n):
    r = repeat_list(I, [It(v)], n)
    I.obj(r).arr = True
    return r


F['numpy.zeros'] = _fill(0)
F['numpy.ones'] = _fill(1)
F['numpy.full'] = _fill(None)
F['numpy.empty'] = lambda I, shape, *a, **kw: unknown(I, 'numpy.empty', [shape])


@ext('numpy.arange')
def _(I, *a, dtype=None, **kw):
    r = F['builtins.range'](I, *a)
    if isinstance(r, Ref):
        I.obj(r).arr = True
    return r


@ext('numpy.kron')
def _(I, a, b):
    ma, mb = as_mat(I, a), as_mat(I, b)
    if ma is None or mb is None:
        return unknown(I, 'kron', [a, b])
    ra, rb = lit_rows(ma), lit_rows(mb)
    if ra and rb and len(ra) * len(rb) <= 64:
        rows = tuple(tuple(mul(ra[i][j], rb[k][l]) for j in range(len(ra[0])) for l in range(len(rb[0])))
                     for i in range(len(ra)) for k in range(len(rb)))
        return I.new_mat(lit(rows))
    return I.new_mat(tm.kron(ma, mb))


@ext('numpy.trace')
def _(I, a, **kw):
    m = as_mat(I, a)
    return tm.trace(m) if m is not None else unknown(I, 'trace', [a])


@ext('numpy.transpose')
def _(I, a, *ax):
    return I.new_mat(tm.transpose(as_mat(I, a)))


@ext('numpy.matmul', 'numpy.dot')
def _(I, a, b):
    if is_matv(I, a) or is_matv(I, b):
        return binop(I, '@', a, b)
    if is_scalar(I, a) or is_scalar(I, b):
        return binop(I, '*', a, b)
    return unknown(I, 'numpy.dot', [a, b])


@ext('numpy.linalg.multi_dot')
def _(I, v):
    r = None
    for p in I.pieces(v):
        if not isinstance(p, It):
            return unknown(I, 'multi_dot', [v])
        r = p.v if r is None else binop(I, '@', r, p.v)
    return r


@ext('numpy.vdot')
def _(I, a, b):
    ma, mb = as_mat(I, a), as_mat(I, b)
    if ma is None or mb is None:
        return unknown(I, 'vdot', [a, b])
    return tm.trace(tm.mmul(tm.dagger(ma), mb))


@ext('numpy.einsum')
def _(I, spec, *ms):
    s = spec.replace(' ', '') if isinstance(spec, str) else ''
    mm = [as_mat(I, m) for m in ms]
    if len(mm) == 2 and all(m is not None for m in mm):
        if s in ('ij,ij', 'ij,ij->'):
            return tm.trace(tm.mmul(tm.transpose(mm[0]), mm[1]))
        if s in ('ij,ji', 'ij,ji->'):
            return tm.trace(tm.mmul(mm[0], mm[1]))
        if s in ('ij,jk', 'ij,jk->ik'):
            return I.new_mat(tm.mmul(*mm))
    if len(mm) == 1 and s in ('ii', 'ii->') and mm[0] is not None:
        return tm.trace(mm[0])
    return unknown(I, 'einsum', list(ms))


@ext('numpy.linalg.det', 'scipy.linalg.det')
def _(I, a):
    m = as_mat(I, a)
    return tm.det(m)


@ext('numpy.linalg.inv', 'scipy.linalg.inv')
def _(I, a):
    m = as_mat(I, a)
    if tm.unitary_mat(m):
        return I.new_mat(tm.dagger(m))
    return I.new_mat(app('inv', m))


@ext('numpy.linalg.norm', 'scipy.linalg.norm')
def _(I, v, ord=None, **kw):
    if is_scalar(I, v):
        return tm.absval(num(I, v))
    m = as_mat(I, v)
    if m is not None and any(x is not None for x in kw.values()):
        return unknown(I, 'numpy.linalg.norm', [v, ord], kw)
    if m is not None:
        if const_of(ord) == 2 if is_number(ord) else False:
            return norm2(m)
        return mk('fro', m, I.vt(ord), kind='real')
    n = num(I, v)
    if n is not None:
        return tm.absval(n)
    return unknown(I, 'norm', [v])


@ext('numpy.linalg.svd', 'scipy.linalg.svd')
def _(I, a, full_matrices=True, compute_uv=True, **kw):
    m = as_mat(I, a)
    s = mk('svals', m)
    if compute_uv is False:
        return s
    return (mk('svdU', m), s, mk('svdV', m))


@ext('scipy.linalg.svdvals', 'numpy.linalg.svdvals')
def _(I, a):
    return mk('svals', as_mat(I, a))


@ext('numpy.linalg.eigvalsh', 'scipy.linalg.eigvalsh')
def _(I, a, *b, **kw):
    return mk('eigs', as_mat(I, a))


@ext('numpy.linalg.eigh', 'scipy.linalg.eigh')
def _(I, a, *b, **kw):
    m = as_mat(I, a)
    return (mk('eigs', m), mk('eigV', m))


@ext('scipy.linalg.expm')
def _(I, a):
    m = as_mat(I, a)
    return I.new_mat(tm.expm(m) if tm.to_mat(m) else tm.ident(tm.dim_of(m)))


@ext('numpy.shape')
def _(I, v):
    return value_attr(I, I.mat(v), 'shape')


@ext('numpy.size')
def _(I, v, *a):
    o = I.o(v)
    if o is not None and o.kind in ('list', 'mat'):
        return value_attr(I, I.mat(v), 'size') if o.kind == 'mat' else I.seqlen(o.ps)
    return unknown(I, 'size', [v])


@ext('numpy.unique')
def _(I, v, **kw):
    if kw:
        return unknown(I, 'unique', [v], kw)
    r = call_ext(I, 'builtins.sorted', [I.new_list(uniq(I, I.pieces(v)))], {})
    I.obj(r).arr = True
    return r


def uniq(I, ps):
    '''The pieces without repetitions, in the order of the first occurrence.'''
    from .loops import elem_type, join_types
    ps = list(ps)
    if all(isinstance(p, It) for p in ps):
        if len(ps) <= 1:
            return list(ps)
        if all(is_num_const(p.v) or isinstance(p.v, str) for p in ps):
            return [It(v) for v in dict.fromkeys(p.v for p in ps)]
        if len(ps) <= 6:
            out = []
            for p in ps:
                rs = [True if q.v is p.v or isinstance(q.v, Ref) and isinstance(p.v, Ref) and q.v.a == p.v.a
                      else I.entails(I.boolv(compare(I, '==', p.v, q.v))) for q in out]
                if True in rs:
                    continue
                if None in rs:
                    out = None
                    break
                out.append(p)
            if out is not None:
                return out
    if len(ps) == 1 and isinstance(ps[0], For) and len(ps[0].ps) == 1 and isinstance(ps[0].ps[0], It):
        x, k = ps[0].ps[0].v, ps[0].k
        if isinstance(x, T) and x.kind in ('int', 'real') and k not in symbols(sub(x, k)):
            return list(ps)         # consecutive numbers
    lt = I.lterm(ps)
    if I.entails(mk('distinct', lt, kind='bool')) is True:
        return list(ps)
    if lt.op == 'uniq':
        return list(ps)
    k = fresh_idx()
    n = mk('card', lt, kind='int')
    I.add_fact(cmp_le(n, I.seqlen(ps)), 'card')
    et = join_types(elem_type(I, ps, I.st), set()) or ('any',)
    return [For(k, n, [It(I.generic(mk('elem', mk('uniq', lt), k), et))])]


def unordered(ps):
    '''Without the orders of sets the pieces came from.'''
    out = []
    for p in ps:
        if isinstance(p, Perm) and p.d.op in ('draw', 'setorder') and 'setorder' in (p.d.op, p.d.args[0]):
            out += unordered(p.ps)
        else:
            out.append(p)
    return out


def set_order(I, o):
    '''The elements of a set in the order an iteration meets them: arbitrary, and different from run to run unless the
    elements are numbers.'''
    from .loops import elem_type, join_types
    ps = uniq(I, unordered(o.ps))
    if len(ps) == 0 or len(ps) == 1 and isinstance(ps[0], It):
        return ps
    et = join_types(elem_type(I, ps, I.st), set()) or ('any',)
    if et[0] in ('int', 'float', 'bool'):
        ns = [p.v for p in ps if isinstance(p, It) and isinstance(p.v, int)]
        if len(ns) == len(ps) and all(0 <= x < 8 for x in ns):
            return [It(x) for x in sorted(ns)]
        return [Perm(mk('setorder', I.lterm(ps)), ps)]
    return [Perm(mk('draw', 'setorder', 'set order', (I.lterm(ps),), 0, (), kind='any'), ps)]


@ext('builtins.dict.fromkeys')
def _(I, v, d=None):
    return I.ref(DictO(I.map_pieces(uniq(I, iter_order(I, v)), lambda x: (x, d))))


def iter_order(I, v):
    v = I.mat(v) if isinstance(v, T) else v
    o = I.o(v)
    if o is not None and o.kind == 'set':
        return set_order(I, o)
    return I.pieces(v)


@meth('set', 'update', 'union')
def set_update(I, o, *vs):
    ps = list(I.obj(o).ps)
    for v in vs:
        ps += I.pieces(v)
    return I.ref(SetO(ps))


@meth('set', 'update')
def _(I, o, *vs):
    I.wrote(o, 'update')
    I.obj(o).ps = I.obj(set_update(I, o, *vs)).ps


@meth('set', 'copy')
def _(I, o):
    return I.ref(SetO(list(I.obj(o).ps)))


@ext('numpy.count_nonzero')
def _(I, v, **kw):
    tot = 0
    for p in I.pieces(v):
        if not isinstance(p, It):
            return unknown(I, 'count_nonzero', [v])
        b = I.boolv(p.v)
        b = I.entails(b) if I.entails(b) is not None else b
        tot = add(tot, int(b) if isinstance(b, bool) else mk('b2i', b, kind='int'))
    return tot


@ext('numpy.iinfo', 'numpy.finfo')
def _(I, t_):
    n = t_.name if isinstance(t_, Ext) else str(t_)
    bits = 64 if '64' in n else 32 if '32' in n else 64
    if 'int' in n:
        return I.ref(Inst(Ext('numpy.iinfo'), {'max': 2 ** (bits - 1) - 1, 'min': -2 ** (bits - 1)}))
    return I.ref(Inst(Ext('numpy.finfo'), {'eps': 2.220446049250313e-16, 'max': 1.7976931348623157e308,
                                           'resolution': 1e-15, 'tiny': 2.2250738585072014e-308}))


@ext('numpy.mod', 'numpy.remainder')
def _(I, a, b):
    return binop(I, '%', a, b)


for _o, _nm in (('+', 'add'), ('-', 'subtract'), ('*', 'multiply'), ('/', 'divide'), ('/', 'true_divide'),
                ('@', 'matmul'), ('//', 'floor_divide')):
    def _mk(o):
        return lambda I, a, b, **kw: binop(I, o, a, b)
    if 'numpy.' + _nm not in F:
        F['numpy.' + _nm] = _mk(_o)
for _o, _nm in (('<', 'less'), ('<=', 'less_equal'), ('>', 'greater'), ('>=', 'greater_equal'), ('==', 'equal')):
    def _mk(o):
        return lambda I, a, b, **kw: I.compare(o, a, b)
    F['numpy.' + _nm] = _mk(_nm and _o)
for _o, _nm in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv'), ('@', 'matmul'), ('**', 'pow')):
    def _mk(o):
        return lambda I, a, b: binop(I, o, a, b)
    F['operator.' + _nm] = _mk(_o)
for _o, _nm in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq')):
    def _mk(o):
        return lambda I, a, b: I.compare(o, a, b)
    F['operator.' + _nm] = _mk(_o)


@ext('operator.not_')
def _(I, a):
    return lnot(I.boolv(a))


@ext('numpy.logical_and')
def _(I, a, b):
    return land(I.boolv(a), I.boolv(b))


@ext('numpy.logical_or')
def _(I, a, b):
    return lor(I.boolv(a), I.boolv(b))


@ext('numpy.logical_not')
def _(I, a):
    return lnot(I.boolv(a))


@ext('numpy.array_equal')
def _(I, a, b):
    x, y = I.vt(a), I.vt(b)
    if x is y:
        return True
    return mk('eq', *sorted((x, y), key=lambda z: z.id if isinstance(z, T) else -1), kind='bool')


@ext('numpy.prod', 'math.prod')
def _(I, v, **kw):
    ps = I.pieces(v)
    r = 1
    for p in ps:
        if isinstance(p, It):
            n = num(I, p.v)
            if n is None:
                return unknown(I, 'prod', [v])
            r = mul(r, n)
        elif isinstance(p, For) and len(p.ps) == 1 and isinstance(p.ps[0], It) and is_number(p.ps[0].v) and \
                p.k not in symbols(p.ps[0].v):
            r = mul(r, power(p.ps[0].v, p.n))
        else:
            return unknown(I, 'prod', [v])
    return r


@ext('numpy.append', 'numpy.concatenate', 'numpy.hstack')
def _(I, a, b=None, **kw):
    if b is None:
        ps = I.pieces(a)
        if all(isinstance(p, It) for p in ps):
            out = []
            for p in ps:
                out += I.pieces(p.v)
            return I.new_list(out, True)
        return unknown(I, 'concatenate', [a])
    return I.new_list(list(I.pieces(a)) + (list(I.pieces(b)) if not is_scalar(I, b) else [It(b)]), True)


@ext('numpy.full_like', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.where', 'numpy.diag', 'numpy.cumsum',
     'numpy.cumprod', 'numpy.fliplr', 'numpy.reshape', 'numpy.take', 'numpy.argsort')
def _(I, *a, **kw):
    raise AssertionError


for _n in ('numpy.zeros_like', 'numpy.ones_like', 'numpy.cumsum', 'numpy.cumprod', 'numpy.fliplr',
           'numpy.reshape', 'numpy.take', 'numpy.argsort', 'numpy.full_like'):
    def _mk(n):
        return lambda I, *a, **kw: unknown(I, n, list(a), kw)
    F[_n] = _mk(_n)


@ext('numpy.where')
def _(I, c, a=None, b=None):
    if isinstance(c, T) and c.op == 'mask' and a is not None:
        mb = as_mat(I, b) if not is_scalar(I, b) else None
        if mb is not None and is_scalar(I, a):
            tol = clean_tol(I, c, mb, num(I, a))
            if tol is not None:
                I.ev('clean', tol=tol)
                return I.new_mat(mb if tol <= TINY else tm.from_mat({(tm.m_atom('cleaned', mb, tol, ''),): 1}))
    if isinstance(c, (bool,)) or (isinstance(c, T) and c.kind == 'bool'):
        if a is not None:
            return a if I.truth(c) else b
    return unknown(I, 'numpy.where', [c, a, b])


@ext('numpy.diag')
def _(I, v):
    ps = I.pieces(v)
    if all(isinstance(p, It) and is_scalar(I, p.v) for p in ps) and ps:
        n = len(ps)
        return I.new_mat(lit(tuple(tuple(num(I, ps[i].v) if i == j else 0 for j in range(n)) for i in range(n))))
    return unknown(I, 'diag', [v])


@ext('scipy.sparse.coo_matrix', 'scipy.sparse.csr_matrix', 'scipy.sparse.csc_matrix', 'scipy.sparse.coo_array',
     'scipy.sparse.csr_array')
def _(I, *a, **kw):
    if a and is_matv(I, a[0]):
        return I.new_mat(I.o(a[0]).m, 'sparse')
    I.ev('sparse', args=tuple(I.vt(x) for x in a), kw=tuple(sorted((k, I.vt(v)) for k, v in kw.items())))
    return I.new_mat(app('sparse', *[I.vt(x) for x in a]), 'sparse')


@ext('typing.cast')
def _(I, t_, v):
    return v


@ext('collections.OrderedDict', 'collections.defaultdict')
def _(I, v=None, **kw):
    return F['builtins.dict'](I, v if not isinstance(v, (Cls, Ext, Func)) else None)


@ext('enum.unique', 'enum.auto')
def _(I, v=None):
    return v if v is not None else mk('auto', I.st.count('auto'))


@ext('math.comb', 'scipy.special.comb')
def _(I, n, r, **kw):
    a, b = num(I, n), num(I, r)
    return mk('ncomb', a, b, kind='int')


@ext('math.isqrt')
def _(I, n):
    return tm.to_int(power(num(I, n), Fr(1, 2)))
