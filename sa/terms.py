'''
Canonical terms: the abstract values of the value-flow analysis.

Scalars are commutative polynomials (rational-complex coefficients, rational exponents) over atoms,
matrices are noncommutative polynomials over matrix atoms, strings are words of parts, booleans are
normalised comparisons.  All terms are hash-consed, so equality of normal forms is identity.
'''
from fractions import Fraction as Fr
import math

_table = {}


class T:
    __slots__ = ('op', 'args', 'kind', 'id', '_syms')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args, kind='any'):
    key = (op, kind, tuple(_key(a) for a in args))
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.kind, t.id = op, args, kind, len(_table)
        t._syms = None
        _table[key] = t
    return t


def _key(a):
    if isinstance(a, tuple):
        return tuple(_key(x) for x in a)
    if isinstance(a, (bool, float, complex, int, str)) or a is None:
        return (type(a).__name__, repr(a))
    return a


def sym(name, kind='any'):
    return mk('sym', name, kind=kind)


NUMK = ('num', 'real', 'int')


def is_num_const(v):
    return isinstance(v, (int, float, complex, Fr)) and not isinstance(v, bool)


def is_number(v):
    if isinstance(v, bool):
        return False
    return is_num_const(v) or (isinstance(v, T) and v.kind in NUMK)


PI = mk('pi', kind='real')
REAL_OPS = {'pi', 'len', 'abs', 'shape', 'log2', 'cos', 'sin', 'int', 'floor', 'fix'}
POS_OPS = {'pi'}
NONNEG_OPS = {'len', 'abs', 'idx', 'shape', 'count'}


# ---------------------------------------------------------------- coefficients
def c_mul(a, b):
    if a[1] == 0 and b[1] == 0:
        return (a[0] * b[0], a[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def c_add(a, b):
    return (a[0] + b[0], a[1] + b[1])


def c_inv(a):
    n = a[0] * a[0] + a[1] * a[1]
    if n == 0:
        raise ZeroDivisionError
    return (a[0] / n, -a[1] / n)


ONE = (Fr(1), Fr(0))


def to_coef(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, complex):
        return (Fr(v.real), Fr(v.imag))
    return (Fr(v), Fr(0))


def finite(v):
    if isinstance(v, float):
        return math.isfinite(v)
    if isinstance(v, complex):
        return math.isfinite(v.real) and math.isfinite(v.imag)
    return True


# ---------------------------------------------------------------- polynomials
def to_poly(v):
    if is_num_const(v) or isinstance(v, bool):
        if not finite(v):
            return {((mk('fconst', repr(v), kind='real'), Fr(1)),): ONE}
        c = to_coef(v)
        return {(): c} if c != (0, 0) else {}
    if v.op == 'poly':
        return dict(v.args[0])
    return {((v, Fr(1)),): ONE}


def poly_kind(p):
    k = 'int'
    for mono, c in p.items():
        if c[1] != 0:
            return 'num'
        if c[0].denominator != 1 and k == 'int':
            k = 'real'
        for a, e in mono:
            if a.kind == 'num':
                return 'num'
            if a.kind == 'real' or e < 0 or e.denominator != 1:
                if a.kind == 'real' and e.denominator != 1 and not nonneg_atom(a):
                    return 'num'
                k = 'real'
    return k


def from_poly(p):
    p = {m: c for m, c in p.items() if c != (0, 0)}
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if c[1] == 0:
                return int(c[0]) if c[0].denominator == 1 else c[0]
            return mk('poly', ((m, c),), kind='num')
        if c == ONE and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(p.items(), key=lambda kv: _mono_key(kv[0])))
    return mk('poly', items, kind=poly_kind(p))


def _mono_key(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def mono_mul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, Fr(0)) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda t: t[0].id))


def add(a, b):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = c_add(p[m], c) if m in p else c
    if len(p) > 1 and any(y.op == 'sum' for m in p for y, _ in m):
        return absorb(from_poly(p))
    return from_poly(p)


def absorb(t):
    '''A sum over a range takes in the summand just before or just after it.'''
    p = to_poly(t)
    for m, c in list(p.items()):
        for y, e in m:
            if y.op != 'sum' or e != 1 or len(y.args) != 3:
                continue
            bv, n, body = y.args
            rest = from_poly({tuple((a, x) for a, x in m if a is not y): c})
            for at in (-1, n):
                one = to_poly(mul(rest, subst(body, {bv: at})))
                if one and m not in one and all(x in p and p[x] == k for x, k in one.items()) and one.keys() != {()}:
                    q = {x: k for x, k in p.items() if x not in one and x != m}
                    s = mk('sum', bv, add(n, 1), subst(body, {bv: sub(bv, 1)}) if at == -1 else body, kind=y.kind)
                    return add(from_poly(q), mul(rest, s))
    return t


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    p = {}
    for m, c in pa.items():
        for n, d in pb.items():
            k = mono_mul(m, n)
            e = c_mul(c, d)
            p[k] = c_add(p[k], e) if k in p else e
    return _combine_pow(p)


def _combine_pow(p):
    '''Merges exponentials/powers with equal base inside each monomial: exp(a)*exp(b), b**m*b**n.'''
    out = {}
    for m, c in p.items():
        exps = [(a, e) for a, e in m if a.op in ('exp', 'powt')]
        if len(exps) > 1 or any(e != 1 for a, e in exps):
            rest = [(a, e) for a, e in m if a.op not in ('exp', 'powt')]
            ex = 0
            by_base = {}
            for a, e in exps:
                if a.op == 'exp':
                    ex = add(ex, mul(a.args[0], e))
                else:
                    by_base[a.args[0]] = add(by_base.get(a.args[0], 0), mul(a.args[1], e))
            v = from_poly({tuple(rest): c})
            for base, e in by_base.items():
                v = mul_plain(v, power(base, e))
            v = mul_plain(v, exp_(ex))
            for m2, c2 in to_poly(v).items():
                out[m2] = c_add(out[m2], c2) if m2 in out else c2
        else:
            out[m] = c_add(out[m], c) if m in out else c
    return from_poly(out)


def mul_plain(a, b):
    pa, pb = to_poly(a), to_poly(b)
    p = {}
    for m, c in pa.items():
        for n, d in pb.items():
            k = mono_mul(m, n)
            e = c_mul(c, d)
            p[k] = c_add(p[k], e) if k in p else e
    return from_poly(p)


def neg(a):
    return mul(a, -1)


def sub(a, b):
    return add(a, neg(b))


def const_of(v):
    '''Rational value of a constant term, or None.'''
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, Fr)):
        return Fr(v)
    if isinstance(v, float) and math.isfinite(v):
        return Fr(v)
    return None


def power(a, b):
    cb = const_of(b)
    ca = const_of(a)
    if ca == 1:
        return 1
    if cb is not None:
        if cb == 0:
            return 1
        if cb == 1:
            return a
        if ca is not None:
            if cb.denominator == 1 and abs(cb) < 200:
                return from_poly({(): to_coef(ca ** int(cb))}) if ca != 0 or cb > 0 else _zerodiv()
            return mk('powt', _norm(a), cb, kind='real' if ca >= 0 else 'num') if cb != Fr(1, 2) or ca < 0 \
                else _sqrt_const(ca)
        p = to_poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if cb.denominator == 1 or (c == ONE and len(m) == 1):
                n = tuple((x, e * cb) for x, e in m)
                if cb.denominator == 1:
                    cc = ONE
                    base = c if cb > 0 else c_inv(c)
                    for _ in range(abs(int(cb))):
                        cc = c_mul(cc, base)
                else:
                    cc = ONE
                return _combine_pow({n: cc})
            if c[1] == 0 and c[0] > 0 and all(nonneg_atom(x) for x, e in m):
                return mul(power(from_poly({(): c}), cb), power(from_poly({m: ONE}), cb))
        if cb.denominator == 1 and 1 < cb <= 4:
            r = a
            for _ in range(int(cb) - 1):
                r = mul(r, a)
            return r
        if cb < 0:
            return power(_fold(a), cb) if _fold(a) is not a else from_poly({((_atom(a), cb),): ONE})
        return from_poly({((_atom(a), cb),): ONE})
    # symbolic exponent: split off an integer constant addend
    pb = to_poly(b) if is_number(b) else {}
    if () in pb and pb[()][1] == 0 and pb[()][0].denominator == 1 and len(pb) > 1:
        c = pb[()][0]
        rest = from_poly({m: k for m, k in pb.items() if m != ()})
        return mul(power(a, int(c)), power(a, rest))
    # (x**y)**z
    if isinstance(a, T) and a.op == 'powt':
        return power(a.args[0], mul(a.args[1], b))
    if isinstance(a, T) and a.op == 'poly':
        p = to_poly(a)
        if len(p) == 1:
            (m, c), = p.items()
            if c == ONE and len(m) == 1:
                x, e = m[0]
                return power(x, mul(e, b))
    if isinstance(a, T) and a.op not in ('poly',):
        # symbolic power of an atom: keep as monomial-like powt
        return mk('powt', a, b, kind='num' if a.kind == 'num' else a.kind if a.kind != 'int' else 'real')
    if isinstance(b, T) and b.op == 'log2' and ca == 2:
        return b.args[0]
    k = 'real'
    if ca is not None and ca.denominator == 1 and ca > 0 and isinstance(b, T) and b.kind == 'int':
        k = 'int'
    return mk('powt', _norm(a), b, kind=k)


def _sqrt_const(c):
    n, d = c.numerator, c.denominator
    # sqrt(n/d) = sqrt(n*d)/d, with the square part taken out
    m = n * d
    s, f, k = 1, m, 2
    while k * k <= f:
        while f % (k * k) == 0:
            f //= k * k
            s *= k
        k += 1
    if f == 1:
        return from_poly({(): (Fr(s, d), Fr(0))})
    return from_poly({((mk('powt', f, Fr(1, 2), kind='real'), Fr(1)),): (Fr(s, d), Fr(0))})


def _zerodiv():
    raise ZeroDivisionError


def _fold(a):
    return a


def _norm(a):
    c = const_of(a)
    if c is not None:
        return int(c) if c.denominator == 1 else c
    return a


def _atom(a):
    if isinstance(a, T):
        return a
    return mk('fconst', repr(a), kind='real')


def div(a, b):
    cb = const_of(b)
    if cb is not None:
        if cb == 0:
            raise ZeroDivisionError
        return mul(a, 1 / cb)
    if isinstance(b, T) and b.op == 'poly' and len(b.args[0]) > 1:
        # normalise the divisor by its leading coefficient
        p = to_poly(b)
        lead = min(p, key=_mono_key)
        c = p[lead]
        nb = from_poly({m: c_mul(k, c_inv(c)) for m, k in p.items()})
        return mul(mul(a, from_poly({(): c_inv(c)})), from_poly({((nb, Fr(-1)),): ONE}))
    return mul(a, power(b, -1))


def exp_(x):
    if const_of(x) == 0:
        return 1
    k = 'real' if (is_num_const(x) and not isinstance(x, complex)) or (
        isinstance(x, T) and x.kind in ('real', 'int')) else 'num'
    return mk('exp', x, kind=k)


# ---------------------------------------------------------------- scalar functions
def real_like(v):
    if is_num_const(v):
        return not isinstance(v, complex) or v.imag == 0
    return isinstance(v, T) and v.kind in ('real', 'int')


def nonneg_atom(a):
    if a.op in NONNEG_OPS or a.op in POS_OPS:
        return True
    if a.op == 'powt':
        c = const_of(a.args[0])
        return c is not None and c > 0
    if a.op == 'exp' and a.kind == 'real':
        return True
    if a.op == 'draw' and a.args[0] == 'u01':
        return True
    if a.op == 'sym' and isinstance(a.args[0], str) and a.args[0].startswith('dim:'):
        return True
    return False


def conj(v):
    if is_num_const(v):
        return v.conjugate() if isinstance(v, complex) else v
    if v.kind in ('real', 'int'):
        return v
    if v.op == 'poly':
        r = 0
        for m, c in to_poly(v).items():
            t = from_poly({(): (c[0], -c[1])})
            for a, e in m:
                t = mul(t, power(conj_atom(a), e))
            r = add(r, t)
        return r
    return conj_atom(v)


def conj_atom(a):
    if a.kind in ('real', 'int'):
        return a
    if a.op == 'conj':
        return a.args[0]
    if a.op == 'trace':
        return trace(dagger(a.args[0]))
    if a.op == 'exp':
        return exp_(conj(a.args[0]))
    if unimod_atom(a):
        return power(a, -1)
    if a.op == 'powt' and real_like(a.args[1]):
        return power(conj(a.args[0]), a.args[1])
    return mk('conj', a, kind='num')


def unimod_atom(a):
    '''Numbers of absolute value one.'''
    if a.op == 'exp':
        return is_imag(a.args[0])
    if a.op == 'det':
        return unitary_mat(a.args[0])
    if a.op == 'powt':
        return real_like(a.args[1]) and unimod(a.args[0])
    if a.op == 'conj':
        return unimod_atom(a.args[0])
    if a.op == 'nprod':
        return unimod(a.args[2])
    return False


def unimod(v):
    if is_num_const(v):
        return abs(v) == 1
    if not isinstance(v, T) or v.kind not in NUMK:
        return False
    p = to_poly(v)
    if len(p) != 1:
        return False
    (m, c), = p.items()
    return c[0] ** 2 + c[1] ** 2 == 1 and all(unimod_atom(a) for a, e in m)


def absval(v):
    if is_num_const(v):
        return abs(v)
    if v.kind not in NUMK:
        return mk('abs', v, kind='real')
    p = to_poly(v)
    if len(p) == 1:
        (m, c), = p.items()
        if c[1] == 0:
            r = abs(c[0])
        elif c[0] == 0:
            r = abs(c[1])
        else:
            r = None
        if r is not None:
            out = from_poly({(): (Fr(r), Fr(0))})
            for a, e in m:
                out = mul(out, power(abs_atom(a), e))
            return out
    # sign-normalise
    n = neg(v)
    k = min((v, n), key=lambda t: repr_key(t))
    return mk('abs', k, kind='real')


def abs_atom(a):
    if nonneg_atom(a):
        return a
    if a.op == 'conj':
        return abs_atom(a.args[0])
    if unimod_atom(a):
        return 1
    if a.op == 'powt' and real_like(a.args[1]):
        x = absval(a.args[0]) if is_number(a.args[0]) else None
        if x is not None and x is not a.args[0]:
            return power(x, a.args[1])
    if a.op == 'trace':
        w, d = a, trace(dagger(a.args[0]))
        if isinstance(d, T) and d.op == 'trace' and mat_key(d.args[0]) < mat_key(w.args[0]):
            w = d
        return mk('abs', w, kind='real')
    return mk('abs', a, kind='real')


def is_imag(v):
    if is_num_const(v):
        return isinstance(v, complex) and v.real == 0
    if not isinstance(v, T) or v.kind not in NUMK:
        return False
    for m, c in to_poly(v).items():
        if c[0] != 0 or any(a.kind == 'num' for a, _ in m):
            return False
    return True


def repr_key(t):
    if isinstance(t, T):
        if t.op == 'poly':
            m, c = t.args[0][0]
            return (1, -c[0], -c[1], t.id)
        return (0, t.id)
    return (-1, 0)


def log2(v):
    c = const_of(v)
    if c is not None and c > 0:
        n, d = c.numerator, c.denominator
        if n & (n - 1) == 0 and d & (d - 1) == 0:
            return n.bit_length() - d.bit_length()
        return mk('log2', _norm(v), kind='real')
    if isinstance(v, T):
        p = to_poly(v)
        if len(p) == 1:
            (m, c), = p.items()
            if c[1] == 0 and c[0] > 0:
                r = log2(from_poly({(): c})) if c != ONE else 0
                for a, e in m:
                    if a.op == 'powt' and const_of(a.args[0]) == 2:
                        r = add(r, mul(a.args[1], e))
                    else:
                        r = add(r, mul(mk('log2', a, kind='real'), e))
                return r
    return mk('log2', v, kind='real')


def to_int(v):
    if isinstance(v, bool):
        return int(v)
    if is_num_const(v):
        return int(v)
    if v.kind == 'int':
        return v
    if v.kind in NUMK:
        p = to_poly(v)
        # int() of a number of qubits: log2 of a power-of-two dimension is integral
        if all(c[1] == 0 and c[0].denominator == 1 and
               all(e.denominator == 1 and e > 0 and integral(a) for a, e in m) for m, c in p.items()):
            return mk('int', v, kind='int') if v.kind != 'int' else v
    return mk('int', v, kind='int')


def integral(a):
    return a.kind == 'int' or a.op == 'log2'


# ---------------------------------------------------------------- matrices
# mat term: op 'mat', args[0] = tuple of (word, coef) sorted; word = tuple of atoms
UNITARY = set()     # atoms known to be unitary
REALM = set()       # atoms known to be real
MODPHASE = [False]  # drop global phases produced by determinant balancing
DET1 = set()        # atoms of determinant one
HERM = set()        # Hermitian atoms


def m_atom(op, *args, unitary=False, real=False):
    a = mk(op, *args, kind='matom')
    if unitary:
        UNITARY.add(a)
    if real:
        REALM.add(a)
    return a


def ident(d):
    return from_mat({(m_atom('ident', d, unitary=True, real=True),): 1})


def matsym(name, unitary=False, real=False):
    return from_mat({(m_atom('msym', name, unitary=unitary, real=real),): 1})


def from_mat(d):
    items = []
    for w, c in d.items():
        if const_of(c) == 0:
            continue
        items.append((w, c))
    items.sort(key=lambda kv: tuple(a.id for a in kv[0]))
    return mk('mat', tuple(items), kind='mat')


def to_mat(t):
    return dict(t.args[0])


def is_mat(t):
    return isinstance(t, T) and t.kind == 'mat'


def mat_key(t):
    return tuple(tuple(a.id for a in w) for w, c in t.args[0])


def unitary_atom(a):
    if a in UNITARY:
        return True
    if a.op == 'dec':
        return unitary_atom(a.args[0])
    if a.op == 'kron':
        return all(unitary_mat(x) for x in a.args)
    if a.op == 'ident':
        return True
    return False


def unitary_mat(t):
    m = to_mat(t)
    if len(m) != 1:
        return False
    (w, c), = m.items()
    return const_of(absval(c) if is_number(c) else c) == 1 and all(unitary_atom(a) for a in w)


def reduce_word(w):
    out = []
    last_ident = None
    for a in w:
        if a.op == 'ident':
            last_ident = a
            continue
        if out and inverse_atoms(out[-1], a):
            out.pop()
            last_ident = last_ident or m_atom('ident', dim_of_atom(a), unitary=True, real=True)
            continue
        out.append(a)
        while _contract(out):
            pass
    if not out:
        return (last_ident,) if last_ident is not None else ()
    return tuple(out)


def single_word(m):
    '''The word of a matrix that is one word with coefficient one, else None.'''
    d = to_mat(m)
    if len(d) == 1:
        (w, c), = d.items()
        if const_of(c) == 1:
            return w
    return None


def prod_at(p, t):
    return single_word(subst(p.args[2], {p.args[1]: t}))


def _contract(out):
    '''Local rewriting at the end of a word: P.(X(x)I).P^T is an embedding; ordered products absorb factors.'''
    if len(out) >= 3 and out[-3].op == 'perm' and out[-2].op == 'kron' and \
            dagger_atom(out[-3]) == ((out[-1],), 1):
        x, y = out[-2].args
        yw = single_word(y)
        if yw and len(yw) == 1 and yw[0].op == 'ident':
            e = to_mat(embed(x, out[-3].args[0], out[-3].args[1]))
            (w, c), = e.items()
            if const_of(c) == 1:
                out[-3:] = list(w)
                return True
    n = len(out)
    j = next((i for i in range(n - 1, max(-1, n - 8), -1) if out[i].op == 'prod'), None)
    if j is None:
        return False
    p = out[j]
    n_, bv, body = p.args

    def put(a, b, m):
        out[a:b] = [x for x in (single_word(m) or ()) if x.op != 'ident']
        return True

    def shifted(d):
        return subst(body, {bv: add(bv, d)})
    if j == n - 1:
        if j > 0 and out[j - 1].op == 'prod':
            n2, bv2, body2 = out[j - 1].args
            if bv2 is bv and shifted(n_) is body2:
                return put(j - 1, n, prodmat(0, add(n_, n2), bv, body))
        b = prod_at(p, sub(n_, 1))
        if b is None:
            return False
        b = single_word(dagger(from_mat({b: 1})))
        if b and j >= len(b) and tuple(out[j - len(b):j]) == tuple(b):
            return put(j - len(b), n, prodmat(0, sub(n_, 1), bv, body))
        b = prod_at(p, n_)
        if b and j >= len(b) and tuple(out[j - len(b):j]) == tuple(b):
            return put(j - len(b), n, prodmat(0, add(n_, 1), bv, body))
        return False
    seg = tuple(out[j + 1:])
    b = prod_at(p, 0)
    if b is None:
        return False
    b = single_word(dagger(from_mat({b: 1})))
    if b and seg == tuple(b):
        return put(j, n, prodmat(0, sub(n_, 1), bv, shifted(1)))
    b = prod_at(p, -1)
    if b and seg == tuple(b):
        return put(j, n, prodmat(0, add(n_, 1), bv, shifted(-1)))
    return False


def bv_depth(x):
    return max([s.args[0] for s in symbols(x) if s.op == 'bv'] + [0])


def prodmat(lo, hi, k, body):
    '''body(hi-1) ... body(lo+1) body(lo), a function of the index symbol k.'''
    c = const_of(sub(hi, lo))
    w = single_word(body)
    if w is not None and len(w) == 1 and w[0].op == 'ident':
        return body
    if c is not None and c <= 0:
        return ident(dim_of(body))
    if c is not None and c <= 4:
        m = subst(body, {k: lo})
        for i in range(1, int(c)):
            m = mmul(subst(body, {k: add(lo, i)}), m)
        return m
    bv = k
    if k.op != 'bv':
        bv = mk('bv', bv_depth(body) + 1, kind='int')
        body = subst(body, {k: bv})
    if const_of(lo) != 0:
        body = subst(body, {bv: add(bv, lo)})
    return from_mat({(m_atom('prod', sub(hi, lo), bv, body, unitary=unitary_mat(body)),): 1})


def summat(n, k, body):
    bv = mk('bv', bv_depth(body) + 1, kind='int')
    return from_mat({(m_atom('summat', n, bv, subst(body, {k: bv})),): 1})


def embed(x, a, d):
    '''The operation x on the qubits a of a system of dimension d (first qubit = first tensor factor).'''
    dx = to_mat(x)
    if len(dx) == 1:
        (w, c), = dx.items()
        if len(w) == 1 and w[0].op == 'ident':
            return mscale(c, ident(d))
        x = from_mat({w: 1})
        return from_mat({(m_atom('embed', x, a, d, unitary=unitary_mat(x)),): c})
    return from_mat({(m_atom('embed', x, a, d),): 1})


def perm(a, d):
    '''The permutation matrix that brings the qubits a to the front of a system of dimension d.'''
    t = m_atom('perm', a, d, unitary=True)
    REALM.add(t)
    return from_mat({(t,): 1})


DIMS = {}


def dim_of_atom(a):
    if a.op == 'ident':
        return a.args[0]
    if a.op == 'dec':
        return dim_of_atom(a.args[0])
    if a.op == 'kron':
        return mul(dim_of(a.args[0]), dim_of(a.args[1]))
    if a in DIMS:
        return DIMS[a]
    if a.op == 'prod':
        return dim_of(a.args[2])
    if a.op == 'summat':
        return dim_of(a.args[2])
    if a.op == 'embed':
        return a.args[2]
    if a.op == 'expm':
        return dim_of(a.args[0])
    if a.op == 'permprod':
        return dim_of(a.args[1])
    if a.op == 'msym' and isinstance(a.args[0], T) and a.args[0].op == 'attrof' and a.args[0].args[1] == 'matrix':
        return mk('attrof', a.args[0].args[0], 'dimension', kind='int')
    if a.op == 'perm':
        return a.args[1]
    if a.op in ('lit',):
        return len(a.args[0])
    if a.op == 'full':
        return a.args[0]
    return mk('shape', from_mat({(a,): 1}), 0, kind='int')


def dim_of(t):
    m = to_mat(t)
    for w in m:
        if w:
            return dim_of_atom(w[0])
    return mk('shape', t, 0, kind='int')


def inverse_atoms(a, b):
    '''a*b == identity for unitary atoms.'''
    if not (unitary_atom(a) and unitary_atom(b)):
        return False
    return dagger_atom(a) == ((b,), 1)


def dagger_atom(a):
    w, c = dec_atom(a, True, True)
    return w, c


def dec_atom(a, t, c):
    '''Transpose (t) and/or conjugate (c) of an atom: returns (word, coefficient).'''
    if not t and not c:
        return (a,), 1
    if a.op == 'dec':
        return dec_atom(a.args[0], t != a.args[1], c != a.args[2])
    if a.op == 'ident':
        return (a,), 1
    if a in REALM:
        c = False
        if not t:
            return (a,), 1
    if a.op == 'kron':
        x, y = dec(a.args[0], t, c), dec(a.args[1], t, c)
        m = to_mat(kron(x, y))
        if len(m) == 1:
            (w, k), = m.items()
            return w, k
    if a.op == 'lit':
        rows = a.args[0]
        if t:
            rows = tuple(zip(*rows))
        if c:
            rows = tuple(tuple(conj(x) for x in r) for r in rows)
        return (m_atom('lit', rows),), 1
    if a.op == 'expm':
        return (m_atom('expm', dec(a.args[0], t, c), unitary=a in UNITARY),), 1
    if a.op == 'embed':
        (w, k), = to_mat(embed(dec(a.args[0], t, c), a.args[1], a.args[2])).items()
        return w, k
    if a.op == 'prod' and t:
        n, bv, body = a.args
        m = prodmat(0, n, bv, subst(dec(body, t, c), {bv: sub(sub(n, 1), bv)}))
        (w, k), = to_mat(m).items()
        return w, k
    if a.op == 'prod':
        (w, k), = to_mat(prodmat(0, a.args[0], a.args[1], dec(a.args[2], t, c))).items()
        return w, k
    if a.op == 'summat':
        return (m_atom('summat', a.args[0], a.args[1], dec(a.args[2], t, c)),), 1
    d = m_atom('dec', a, t, c)
    if unitary_atom(a):
        UNITARY.add(d)
    return (d,), 1


def dec(t, tr_, cj):
    out = {}
    for w, c in to_mat(t).items():
        nc = conj(c) if cj else c
        nw = []
        for a in (reversed(w) if tr_ else w):
            ww, k = dec_atom(a, tr_, cj)
            nw.extend(ww)
            nc = mul(nc, k)
        nw = reduce_word(tuple(nw))
        out[nw] = add(out[nw], nc) if nw in out else nc
    return from_mat(out)


def dagger(t):
    return dec(t, True, True)


def transpose(t):
    return dec(t, True, False)


def mconj(t):
    return dec(t, False, True)


def mmul(a, b):
    out = {}
    for w, c in to_mat(a).items():
        for v, d in to_mat(b).items():
            k = reduce_word(w + v)
            e = mul(c, d)
            out[k] = add(out[k], e) if k in out else e
    return from_mat(out)


def madd(a, b):
    out = to_mat(a)
    for w, c in to_mat(b).items():
        out[w] = add(out[w], c) if w in out else c
    if len(out) > 1 and any(len(w) == 1 and w[0].op == 'summat' for w in out):
        out = absorb_mat(out)
    return from_mat(out)


def absorb_mat(d):
    '''A sum over a range takes in the summand just before or just after it.'''
    for w, c in list(d.items()):
        if len(w) != 1 or w[0].op != 'summat' or len(d) < 2:
            continue
        n, bv, body = w[0].args
        for at in (-1, n):
            one = {x: mul(c, k) for x, k in to_mat(subst(body, {bv: at})).items()}
            if one and w not in one and all(x in d and sub(d[x], k) == 0 for x, k in one.items()):
                rest = {x: k for x, k in d.items() if x not in one and x != w}
                m = from_mat({(m_atom('summat', add(n, 1), bv, subst(body, {bv: sub(bv, 1)}) if at == -1 else body),): 1})
                return to_mat(madd(from_mat(rest), mscale(c, m)))
    return d


def phase_factor(a, e):
    '''Whether atom**e is a global phase that comes from determinant balancing.'''
    return unimod_atom(a)


def has_det(a):
    '''A power of determinants in front of a matrix that was accepted as unitary has modulus one.'''
    return a.op == 'det' or (a.op in ('powt', 'conj') and all(
        b.op == 'det' or (not isinstance(b, T)) for m in to_poly(a.args[0]) for b, _ in m) and any(
        b.op == 'det' or has_det(b) for m in to_poly(a.args[0]) for b, _ in m))


def mscale(c, m):
    if MODPHASE[0] and isinstance(c, T):
        p = to_poly(c)
        if len(p) == 1:
            (mo, k), = p.items()
            c = from_poly({tuple((a, e) for a, e in mo if not phase_factor(a, e) and not has_det(a)): k})
    return from_mat({w: mul(c, k) for w, k in to_mat(m).items()})


def kron(a, b):
    ma, mb = to_mat(a), to_mat(b)
    if len(ma) == 1 and len(mb) == 1:
        (wa, ca), = ma.items()
        (wb, cb), = mb.items()
        if len(wa) == 1 and len(wb) == 1 and wa[0].op == wb[0].op == 'ident':
            return mscale(mul(ca, cb), ident(mul(wa[0].args[0], wb[0].args[0])))
        if len(wa) == 1 and wa[0].op == 'ident' and const_of(wa[0].args[0]) == 1:
            return mscale(ca, b)
        if len(wb) == 1 and wb[0].op == 'ident' and const_of(wb[0].args[0]) == 1:
            return mscale(cb, a)
        x, y = from_mat({wa: 1}), from_mat({wb: 1})
        return from_mat({(m_atom('kron', x, y),): mul(ca, cb)})
    return from_mat({(m_atom('kron', a, b),): 1})


def expm(m):
    if not to_mat(m):
        return None
    return from_mat({(m_atom('expm', m),): 1})


def trace(m):
    r = 0
    for w, c in to_mat(m).items():
        if len(w) == 1 and w[0].op == 'ident':
            r = add(r, mul(c, w[0].args[0]))
            continue
        if len(w) > 1:
            # cyclic reduction and canonical rotation
            w = list(w)
            while len(w) > 2 and inverse_atoms(w[-1], w[0]):
                w = w[1:-1]
            if len(w) == 2 and inverse_atoms(w[-1], w[0]):
                r = add(r, mul(c, dim_of_atom(w[0])))
                continue
            rots = [tuple(w[i:] + w[:i]) for i in range(len(w))]
            w = min(rots, key=lambda q: tuple(a.id for a in q))
        r = add(r, mul(c, mk('trace', from_mat({tuple(w): 1}), kind='num')))
    return r


def det1_atom(a):
    if a in DET1:
        return True
    if a.op == 'ident':
        return True
    if a.op == 'dec':
        return det1_atom(a.args[0])
    if a.op == 'kron':
        return det1(a.args[0]) and det1(a.args[1])
    if a.op == 'embed':
        return det1(a.args[0])
    if a.op == 'prod':
        return det1(a.args[2])
    if a.op == 'permprod':
        return det1(a.args[1])
    return False


def det1(m):
    d = to_mat(m)
    return len(d) == 1 and all(const_of(c) == 1 and all(det1_atom(a) for a in w) for w, c in d.items())


def det(m):
    d = to_mat(m)
    if len(d) == 1:
        (w, c), = d.items()
        r = 1
        if const_of(c) != 1:
            r = power(c, dim_of(m))
        rest = [a for a in w if not det1_atom(a)]
        for a in rest:
            r = mul(r, mk('det', from_mat({(a,): 1}), kind='num'))
        return r
    return mk('det', m, kind='num')


def strip_phase(m):
    '''Drops unimodular constant/phase coefficients of a single-word matrix (unitary up to phase).'''
    d = to_mat(m)
    if len(d) != 1:
        return m
    (w, c), = d.items()
    if is_number(c):
        if const_of(absval(c)) == 1:
            return from_mat({w: 1})
        p = to_poly(c)
        if len(p) == 1:
            (mo, k), = p.items()
            keep = tuple((a, e) for a, e in mo if not (
                phase_factor(a, e) or (a.op == 'exp' and is_imag(a.args[0]))))
            kk = from_poly({keep: k})
            if const_of(absval(kk)) == 1:
                return from_mat({w: 1})
            return from_mat({w: kk})
    return m


# ---------------------------------------------------------------- strings
def cat(*parts):
    out = []
    for p in parts:
        ps = p.args if isinstance(p, T) and p.op == 'cat' else (p,)
        for q in ps:
            if isinstance(q, str) and q == '':
                continue
            if out and isinstance(q, str) and isinstance(out[-1], str):
                out[-1] = out[-1] + q
            else:
                out.append(q)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    return mk('cat', *out, kind='str')


def join(sep, x):
    if isinstance(sep, str) and isinstance(x, T) and x.op == 'list' and all(
            isinstance(y, T) and y.op == 'it' for y in x.args):
        out = []
        for y in x.args:
            out += [sep, y.args[0]] if out else [y.args[0]]
        return cat(*out)
    return mk('join', sep, x, kind='str')


# ---------------------------------------------------------------- booleans
def all_int(p):
    return all(c[1] == 0 and c[0].denominator == 1 and
               all(e.denominator == 1 and e > 0 and a.kind == 'int' for a, e in m) for m, c in p.items())


def _scaled(p, allow_neg=False):
    m0 = [m for m in p if m != ()]
    lead = min(m0, key=_mono_key)
    c = p[lead]
    if c[1] != 0:
        return p, 1
    s = c[0] if allow_neg else abs(c[0])
    return {m: (k[0] / s, k[1] / s) for m, k in p.items()}, s


def cmp_le(a, b):
    return _cmp(sub(a, b), False)


def cmp_lt(a, b):
    return _cmp(sub(a, b), True)


def _cmp(d, strict):
    c = const_of(d)
    if c is not None:
        return c < 0 if strict else c <= 0
    p = to_poly(d)
    if strict and all_int(p):
        p = dict(p)
        p[()] = c_add(p.get((), (Fr(0), Fr(0))), ONE)
        p = {m: k for m, k in p.items() if k != (0, 0)}
        strict = False
    p, _ = _scaled(p)
    return mk('lt' if strict else 'le', from_poly(p), kind='bool')


def cmp_eq(a, b):
    if a is b:
        return True
    if is_number(a) and is_number(b):
        d = sub(a, b)
        c = const_of(d)
        if c is not None:
            return c == 0
        p, _ = _scaled(to_poly(d), True)
        return mk('eq0', from_poly(p), kind='bool')
    x, y = sorted((a, b), key=lambda v: (0, v.id) if isinstance(v, T) else (1, repr(v)))
    return mk('eq', x, y, kind='bool')


def lnot(b):
    if isinstance(b, bool):
        return not b
    if b.op == 'not':
        return b.args[0]
    if b.op == 'le':
        return _cmp_raw(neg(b.args[0]), True)
    if b.op == 'lt':
        return _cmp_raw(neg(b.args[0]), False)
    if b.op == 'and':
        return lor(*[lnot(x) for x in b.args])
    if b.op == 'or':
        return land(*[lnot(x) for x in b.args])
    return mk('not', b, kind='bool')


def _cmp_raw(d, strict):
    return _cmp(d, strict)


def land(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.extend(x.args if isinstance(x, T) and x.op == 'and' else (x,))
    out = sorted(set(out), key=lambda t: t.id)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('and', *out, kind='bool')


def lor(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.extend(x.args if isinstance(x, T) and x.op == 'or' else (x,))
    out = sorted(set(out), key=lambda t: t.id)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return mk('or', *out, kind='bool')


# ---------------------------------------------------------------- substitution
def rebuild(t, args):
    '''Re-normalises a term from new arguments.'''
    op = t.op
    if op == 'poly':
        r = 0
        for m, c in args[0]:
            v = from_poly({(): c})
            for a, e in m:
                v = mul(v, power(a, e))
            r = add(r, v)
        return r
    if op == 'mat':
        r = None
        out = {}
        for w, c in args[0]:
            acc = {(): c}
            for a in w:
                am = to_mat(a) if (isinstance(a, T) and a.kind == 'mat') else {(a,): 1}
                nxt = {}
                for w0, c0 in acc.items():
                    for w1, c1 in am.items():
                        k = w0 + w1
                        e = mul(c0, c1)
                        nxt[k] = add(nxt[k], e) if k in nxt else e
                acc = nxt
            for k, e in acc.items():
                k = reduce_word(k)
                out[k] = add(out[k], e) if k in out else e
        return from_mat(out)
    if op == 'dec':
        a = args[0]
        if isinstance(a, T) and a.kind == 'mat':
            return dec(a, args[1], args[2])
        w, c = dec_atom(a, args[1], args[2])
        return w[0] if len(w) == 1 and c == 1 else from_mat({w: c})
    if op == 'kron':
        return kron(*args)
    if op == 'prod':
        return prodmat(0, *args)
    if op == 'embed':
        return embed(*args)
    if op == 'cat':
        return cat(*args)
    if op == 'ite' and isinstance(args[0], bool):
        return args[1] if args[0] else args[2]
    if op in ('list', 'seq'):
        args = settled(args)
    if op == 'join':
        return join(*args)
    if op == 'le':
        return _cmp(args[0], False) if is_number(args[0]) else mk(op, *args, kind=t.kind)
    if op == 'lt':
        return _cmp(args[0], True) if is_number(args[0]) else mk(op, *args, kind=t.kind)
    if op == 'eq0':
        return cmp_eq(args[0], 0)
    if op == 'eq':
        return cmp_eq(*args)
    if op == 'not':
        return lnot(args[0])
    if op == 'and':
        return land(*args)
    if op == 'or':
        return lor(*args)
    if op == 'powt':
        return power(*args)
    if op == 'exp':
        return exp_(args[0])
    if op == 'abs':
        return absval(args[0])
    if op == 'conj':
        return conj(args[0])
    if op == 'trace':
        return trace(args[0])
    if op == 'log2':
        return log2(args[0])
    if op == 'int':
        return to_int(args[0])
    if op in ('min', 'max') and args and all(is_number(x) for x in args):
        from .interp import _mm
        return _mm(op, args)
    n = mk(op, *args, kind=t.kind)
    if t in UNITARY:
        UNITARY.add(n)
    if t in REALM:
        REALM.add(n)
    return n


def settled(args):
    '''The pieces of a list, with those whose number is known to be zero or one, or whose condition is known, resolved.'''
    if not any(isinstance(x, T) and (x.op == 'for' and x.args[1] in (0, 1) or x.op == 'if' and isinstance(x.args[0], bool))
               for x in args):
        return args
    out = []
    for x in args:
        if isinstance(x, T) and x.op == 'for' and x.args[1] in (0, 1) and isinstance(x.args[2], T) and \
                x.args[2].op == 'seq':
            if x.args[1] == 1:
                out += settled(subst(x.args[2], {x.args[0]: 0}).args)
        elif isinstance(x, T) and x.op == 'if' and isinstance(x.args[0], bool) and isinstance(x.args[1], T) and \
                x.args[1].op == 'seq':
            if x.args[0]:
                out += settled(x.args[1].args)
        else:
            out.append(x)
    return tuple(out)


TYPES = {}      # T -> type descriptor of lazily materialised inputs


def subst(t, mp, memo=None):
    '''Simultaneous substitution term->value.'''
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, mp, memo) for x in t)
        return t
    if t in mp:
        return mp[t]
    if t in memo:
        return memo[t]
    if not (symbols(t) & _keys(mp, memo)):
        memo[t] = t
        return t
    new = tuple(subst(a, mp, memo) for a in t.args)
    r = t if _same(new, t.args) else rebuild(t, new)
    if r is not t and t in TYPES and isinstance(r, T) and r.op == t.op and r not in TYPES:
        TYPES[r] = TYPES[t]
    memo[t] = r
    return r


def _keys(mp, memo):
    k = memo.get('#keys')
    if k is None:
        k = set()
        for x in mp:
            k |= symbols(x)
        memo['#keys'] = k
    return k


def _same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    return a is b or (not isinstance(a, T) and not isinstance(b, T) and type(a) == type(b) and a == b)


def symbols(t):
    '''All leaf/named subterms (used to prune substitution and to look for markers).'''
    if not isinstance(t, T):
        if isinstance(t, tuple):
            s = set()
            for x in t:
                s |= symbols(x)
            return frozenset(s)
        return frozenset()
    if t._syms is None:
        s = {t} if t.op in LEAFY else set()
        for a in t.args:
            s |= symbols(a)
        t._syms = frozenset(s)
    return t._syms


LEAFY = {'sym', 'msym', 'idx', 'bv', 'bve', 'lv', 'lvm', 'draw', 'elem', 'src', 'unk', 'mu', 'call', 'prodmap', 'pick',
         'attrof', 'rest', 'init', 'lsrc'}


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            stack.extend(x.args)
    return seen


OPAQUE = {'unk', 'mu', 'call'}


def opaque(t):
    '''Constructs outside the vocabulary that occur in a term.'''
    return [x for x in subterms(t) if x.op in OPAQUE]


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t) if isinstance(t, str) else str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    if t.op in ('sym', 'msym'):
        return str(t.args[0]) if not isinstance(t.args[0], T) else show(t.args[0], depth)
    if t.op == 'poly':
        parts = []
        for m, c in t.args[0]:
            fs = [show(a, d) + ('' if e == 1 else f'^{e}') for a, e in m]
            if c[1] != 0:
                cs = f'({c[0]}+{c[1]}i)' if c[0] != 0 else f'{c[1]}i'
            else:
                cs = '' if c[0] == 1 and fs else str(c[0] if c[0].denominator < 10**6 else float(c[0]))
            parts.append('*'.join(([cs] if cs else []) + fs))
        return '(' + ' + '.join(parts) + ')'
    if t.op == 'mat':
        parts = []
        for w, c in t.args[0]:
            s = '·'.join(show(a, d) for a in w)
            parts.append(s if c == 1 else f'{show(c, d)}·{s}')
        return '[' + ' + '.join(parts) + ']'
    if t.op == 'dec':
        return show(t.args[0], d) + {(True, True): '†', (True, False): 'ᵀ', (False, True): '*'}[t.args[1:]]
    if t.op == 'cat':
        return '"' + ''.join(x if isinstance(x, str) else '{' + show(x, d) + '}' for x in t.args) + '"'
    if t.op == 'ident':
        return f'I({show(t.args[0], d)})'
    if t.op == 'pi':
        return 'π'
    if t.op == 'le':
        return f'{show(t.args[0], d)}<=0'
    if t.op == 'lt':
        return f'{show(t.args[0], d)}<0'
    if t.op == 'eq0':
        return f'{show(t.args[0], d)}==0'
    return f'{t.op}(' + ', '.join(show(a, d) for a in t.args) + ')'
