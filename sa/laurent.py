'''
Exact trigonometric domain: entries are finite sums  sum_k c_k exp(i (L_k + r_k pi))  with linear forms L_k over angle
atoms.  Distinct linear forms are linearly independent functions, so a sum vanishes for every angle iff the constant in
front of each linear form vanishes.
'''
import cmath
import math
from fractions import Fraction as Fr

from . import terms as tm
from .terms import T

EPS = 1e-11


class NotTrig(Exception):
    pass


def form(x):
    '''A real argument as (linear form over non-pi monomials, multiple of pi).'''
    p = tm.to_poly(x)
    lin, r = {}, Fr(0)
    for m, c in p.items():
        if c[1] != 0:
            raise NotTrig('complex argument')
        if m == ((tm.PI, 1),):
            r += c[0]
        elif m == ():
            lin[()] = lin.get((), 0) + c[0]
        else:
            lin[tuple((a.id, e) for a, e in m)] = c[0]
    return tuple(sorted((k, v) for k, v in lin.items() if v != 0)), r


def fadd(f, g, s=1):
    d = dict(f)
    for k, v in g:
        d[k] = d.get(k, 0) + s * v
    return tuple(sorted((k, v) for k, v in d.items() if v != 0))


def clean(e):
    return {k: v for k, v in e.items() if abs(v) > EPS}


def emul(a, b):
    out = {}
    for f, x in a.items():
        for g, y in b.items():
            h = fadd(f, g)
            out[h] = out.get(h, 0) + x * y
    return clean(out)


def eadd(a, b, s=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + s * v
    return clean(out)


def econj(a):
    return {fadd((), f, -1): v.conjugate() for f, v in a.items()}


def cis(f, r, sign=1):
    '''exp(i sign (f + r pi))'''
    f2 = f if sign == 1 else fadd((), f, -1)
    return {f2: cmath.exp(1j * sign * math.pi * float(r))}


def scale(e, c):
    return {k: v * c for k, v in e.items()}


def const(c):
    return {(): complex(c)} if abs(c) > EPS else {}


def atom(a):
    if a.op in ('cos', 'sin'):
        f, r = form(a.args[0])
        p, q = cis(f, r), cis(f, r, -1)
        if a.op == 'cos':
            return scale(eadd(p, q), 0.5)
        return scale(eadd(p, q, -1), -0.5j)
    if a.op == 'exp':
        x = a.args[0]
        im = tm.mul(x, -1j)
        if not tm.real_like(im):
            raise NotTrig('exponential of a non-imaginary argument')
        f, r = form(im)
        return cis(f, r)
    if a is tm.PI:
        return const(math.pi)
    if a.op == 'powt':
        b, e = tm.const_of(a.args[0]), tm.const_of(a.args[1])
        if b is not None and e is not None:
            return const(complex(float(b)) ** float(e))
    if a.op == 'abs':
        raise NotTrig('abs')
    raise NotTrig(a.op)


def entry(x):
    c = tm.const_of(x)
    if c is not None:
        return const(complex(float(c)))
    out = {}
    for m, k in tm.to_poly(x).items():
        e = const(complex(float(k[0]), float(k[1])))
        for a, n in m:
            if isinstance(n, Fr) and n.denominator != 1:
                if a.kind and tm.const_of(a) is None:
                    try:
                        v = atom(a)
                    except NotTrig:
                        raise
                    if set(v) <= {()}:
                        e = emul(e, const(v.get((), 0) ** float(n)))
                        continue
                raise NotTrig('fractional power')
            n = int(n)
            v = atom(a)
            if n < 0:
                if set(v) <= {()} and v:
                    e = emul(e, const(v[()] ** n))
                    continue
                raise NotTrig('reciprocal')
            for _ in range(n):
                e = emul(e, v)
        out = eadd(out, e)
    return clean(out)


# ---------------------------------------------------------------- matrices
def mident(d):
    return [[const(1 if i == j else 0) for j in range(d)] for i in range(d)]


def mmul(a, b):
    n, m, k = len(a), len(b[0]), len(b)
    out = []
    for i in range(n):
        row = []
        for j in range(m):
            e = {}
            for x in range(k):
                if a[i][x] and b[x][j]:
                    e = eadd(e, emul(a[i][x], b[x][j]))
            row.append(e)
        out.append(row)
    return out


def mkron(a, b):
    return [[emul(x, y) for x in ra for y in rb] for ra in a for rb in b]


def word(w):
    m = None
    for a in w:
        x = matatom(a)
        m = x if m is None else mmul(m, x)
    return m


def matatom(a):
    if a.op == 'lit':
        return [[entry(x) for x in r] for r in a.args[0]]
    if a.op == 'ident':
        d = tm.const_of(a.args[0])
        if d is None or d > 16:
            raise NotTrig('identity of unknown size')
        return mident(int(d))
    if a.op == 'kron':
        return mkron(matrix(a.args[0]), matrix(a.args[1]))
    if a.op == 'dec':
        x = matatom(a.args[0])
        tr_, cj = a.args[1], a.args[2]
        if tr_:
            x = [list(r) for r in zip(*x)]
        if cj:
            x = [[econj(e) for e in r] for r in x]
        return x
    raise NotTrig(a.op)


def phase_only(c):
    '''The coefficient without determinant factors (whose modulus is one for a unitary matrix).'''
    out = {}
    if not tm.is_number(c):
        raise NotTrig('coefficient')
    for m, k in tm.to_poly(c).items():
        m2 = tuple((a, e) for a, e in m if not any(y.op == 'det' for y in tm.subterms(a)))
        out[m2] = k
    return tm.from_poly(out)


def matrix(t, nodet=False):
    out = None
    for w, c in tm.to_mat(t).items():
        x = word(w)
        k = entry(phase_only(c) if nodet else c)
        x = [[emul(e, k) for e in r] for r in x]
        out = x if out is None else [[eadd(p, q) for p, q in zip(r1, r2)] for r1, r2 in zip(out, x)]
    return out


def dag(a):
    return [[econj(e) for e in r] for r in zip(*a)]


def equal(a, b):
    return len(a) == len(b) and all(len(r) == len(q) and all(not eadd(x, y, -1) for x, y in zip(r, q))
                                    for r, q in zip(a, b))


def is_unitary(a):
    return equal(mmul(a, dag(a)), mident(len(a)))


def proportional(a, b):
    '''a = c b for a scalar function c; None, or the first differing entry.'''
    n = len(b)
    if len(a) != n:
        return (len(a), n)
    piv = next(((i, j) for i in range(n) for j in range(n) if b[i][j]), None)
    if piv is None:
        return (0, 0)
    p, q = piv
    for i in range(n):
        for j in range(n):
            if eadd(emul(a[i][j], b[p][q]), emul(a[p][q], b[i][j]), -1):
                return (i, j)
    return None


def show_entry(e):
    return ' + '.join(f'({v:.4g})exp(i{dict(k)})' for k, v in e.items()) or '0'
