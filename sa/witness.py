'''
Small matrices with which the conditions of a path hold: the conditions that an analysis extracted are evaluated at fixed
2x2 matrices (alone, or as the leading block of a larger identity).  Nothing of the analysed program is run.
'''
import cmath
import itertools
import math
import struct

from . import terms as tm
from .terms import T


class Beyond(Exception):
    pass


def eye(n):
    return [[1.0 + 0j if i == j else 0j for j in range(n)] for i in range(n)]


def mul(a, b):
    if len(a[0]) != len(b):
        raise Beyond
    r = [[0j] * len(b[0]) for _ in a]
    for i, row in enumerate(a):
        for k, x in enumerate(row):
            if x:
                bk = b[k]
                ri = r[i]
                for j, y in enumerate(bk):
                    if y:
                        ri[j] += x * y
    return r


def tr(a):
    return [list(r) for r in zip(*a)]


def each(f, *xs):
    '''Elementwise, with broadcasting of scalars and of rows.'''
    if any(isinstance(x, list) for x in xs):
        n = max(len(x) for x in xs if isinstance(x, list))
        deep = max(depth(x) for x in xs)
        ys = []
        for x in xs:
            if isinstance(x, list) and depth(x) == deep:
                if len(x) not in (1, n):
                    raise Beyond
                ys.append(x if len(x) == n else x * n)
            else:
                ys.append([x] * n)
        return [each(f, *r) for r in zip(*ys)]
    return f(*xs)


def depth(x):
    return 1 + depth(x[0]) if isinstance(x, list) else 0


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def eigs2(a):
    '''Eigenvalues of a matrix that is a 2x2 block and an identity.'''
    n = len(a)
    if n != len(a[0]):
        raise Beyond
    if n == 1:
        return [a[0][0]]
    for i in range(n):
        for j in range(n):
            if max(i, j) >= 2 and a[i][j] != (i == j):
                raise Beyond
    t, d = a[0][0] + a[1][1], a[0][0] * a[1][1] - a[0][1] * a[1][0]
    s = cmath.sqrt(t * t / 4 - d)
    return [t / 2 + s, t / 2 - s] + [1.0] * (n - 2)


def det(a):
    a = [list(r) for r in a]
    n, d = len(a), 1.0 + 0j
    if n != len(a[0]):
        raise Beyond
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(a[r][i]))
        if abs(a[p][i]) < 1e-300:
            return 0j
        if p != i:
            a[i], a[p] = a[p], a[i]
            d = -d
        d *= a[i][i]
        for r in range(i + 1, n):
            f = a[r][i] / a[i][i]
            if f:
                a[r] = [x - f * y for x, y in zip(a[r], a[i])]
    return d


def inv(a):
    n = len(a)
    m = [list(r) + e for r, e in zip(a, eye(n))]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        if abs(m[p][i]) < 1e-12:
            raise Beyond
        m[i], m[p] = m[p], m[i]
        x = m[i][i]
        m[i] = [y / x for y in m[i]]
        for r in range(n):
            if r != i and m[r][i]:
                f = m[r][i]
                m[r] = [y - f * z for y, z in zip(m[r], m[i])]
    return [r[n:] for r in m]


def real(x):
    x = complex(x)
    if abs(x.imag) > 1e-12 * max(1, abs(x)):
        raise Beyond
    return x.real


def put(x, part):
    return 0j if not part else complex(0, x.imag) if part == 'real' else complex(x.real, 0)


def single(x):
    return struct.unpack('f', struct.pack('f', x))[0]


class Eval:
    def __init__(self, env):
        self.env = env          # symbols (and atoms) -> number or matrix

    def num(self, t):
        v = self.any(t)
        if isinstance(v, list):
            raise Beyond
        return v

    def mat(self, t):
        v = self.any(t)
        if depth(v) != 2:
            raise Beyond
        return v

    def any(self, t):
        if isinstance(t, bool):
            return t
        if isinstance(t, (int, float, complex)):
            return t
        if not isinstance(t, T):
            c = tm.const_of(t)
            if c is None:
                raise Beyond
            return float(c)
        if t in self.env:
            return self.env[t]
        h = getattr(self, 'x_' + t.op, None)
        if h is None:
            raise Beyond
        return h(*t.args)

    # ---- matrices
    def x_mat(self, items):
        out = None
        for w, c in items:
            m = None
            for a in w:
                b = self.any(a)
                m = b if m is None else mul(*self.two(m, b))
            c = self.num(c)
            if m is None:
                raise Beyond
            m = each(lambda x: c * x, m)
            out = m if out is None else each(lambda x, y: x + y, out, m)
        if out is None:
            raise Beyond
        return out

    @staticmethod
    def two(a, b):
        if depth(a) != 2 or depth(b) != 2:
            raise Beyond
        return a, b

    def x_msym(self, name, *_):
        return self.any(name)

    def x_dec(self, a, t, c):
        m = self.any(a)
        if depth(m) != 2:
            raise Beyond
        if t:
            m = tr(m)
        return each(lambda x: complex(x).conjugate(), m) if c else m

    def x_ident(self, d):
        n = self.num(d)
        if not 0 < n < 300:
            raise Beyond
        return eye(int(n))

    def x_lit(self, rows):
        return [[self.num(x) for x in r] for r in rows]

    def x_app(self, x, *rest):
        if rest or not isinstance(x, T):
            raise Beyond
        return self.any(x)

    def x_had(self, a, b):
        return each(lambda x, y: x * y, self.any(a), self.any(b))

    # ---- library functions
    def x_call(self, name, *args):
        name = name.split('.')[-1].replace('meth:', '')
        if any(isinstance(a, T) and a.op == 'kw' for a in args):
            ax = [a for a in args if isinstance(a, T) and a.op == 'kw']
            args = tuple(a for a in args if a not in ax)
            if name != 'norm' or len(ax) != 1 or ax[0].args[0] != 'axis':
                raise Beyond
            m, axis = self.mat(args[0]), ax[0].args[1]
            if len(args) > 1 and args[1] is not None and not (isinstance(args[1], T) and args[1].op == 'none'):
                raise Beyond
            rows = {0: tr(m), 1: m, -1: m}.get(int(axis) if tm.const_of(axis) is not None else None)
            if rows is None:
                raise Beyond
            return [math.sqrt(sum(abs(x) ** 2 for x in r)) for r in rows]
        if name == 'matsum':
            m, axis = self.any(args[0]), args[1]
            c = None if axis is None or isinstance(axis, T) and axis.op == 'none' else tm.const_of(axis)
            if c is None and axis is not None and not (isinstance(axis, T) and axis.op == 'none'):
                raise Beyond
            if c is None:
                return sum(flat(m))
            if depth(m) != 2 or c not in (0, 1, -1):
                raise Beyond
            return [sum(r) for r in (tr(m) if c == 0 else m)]
        if name == 'getitem':
            m, i = self.any(args[0]), tm.const_of(args[1]) if len(args) == 2 else None
            if i is None or not isinstance(m, list) or not -len(m) <= i < len(m):
                raise Beyond
            return m[int(i)]
        if name in ('abs', 'absolute', 'real', 'imag', 'conj', 'conjugate', 'angle', 'exp', 'square') and len(args) == 1:
            f = {'abs': abs, 'absolute': abs, 'real': lambda x: complex(x).real, 'imag': lambda x: complex(x).imag,
                 'conj': lambda x: complex(x).conjugate(), 'conjugate': lambda x: complex(x).conjugate(),
                 'angle': lambda x: cmath.phase(complex(x)), 'exp': cmath.exp, 'square': lambda x: x * x}[name]
            return each(f, self.any(args[0]))
        if name in ('op+', 'op-', 'op*', 'op/', 'op**') and len(args) == 2:
            def f(x, y):
                try:
                    return {'op+': lambda: x + y, 'op-': lambda: x - y, 'op*': lambda: x * y, 'op/': lambda: x / y,
                            'op**': lambda: complex(x) ** y}[name]()
                except (ZeroDivisionError, OverflowError):
                    raise Beyond
            return each(f, self.any(args[0]), self.any(args[1]))
        if name in ('diag', 'diagonal') and len(args) == 1:
            m = self.mat(args[0])
            return [m[i][i] for i in range(min(len(m), len(m[0])))]
        if name in ('triu', 'tril') and len(args) == 1:
            m = self.mat(args[0])
            return [[x if (i <= j if name == 'triu' else j <= i) else 0j for j, x in enumerate(r)] for i, r in enumerate(m)]
        if name in ('inv', 'pinv') and len(args) == 1:
            return inv(self.mat(args[0]))
        if name == 'det' and len(args) == 1:
            return det(self.mat(args[0]))
        if name in ('vdot', 'inner', 'dot') and len(args) == 2:
            a, b = self.any(args[0]), self.any(args[1])
            if depth(a) != 1 or depth(b) != 1:
                raise Beyond
            return sum((complex(x).conjugate() if name == 'vdot' else x) * y for x, y in zip(a, b))
        if name == 'cond' and len(args) == 1:
            v = self.svals(args[0])
            if v[-1] < 1e-9:
                raise Beyond
            return v[0] / v[-1]
        if name == 'matrix_rank' and len(args) == 1:
            m = self.mat(args[0])
            if abs(det(m)) < 1e-6:
                raise Beyond
            return len(m)
        if name in ('eigvals', 'eigvalsh') and len(args) == 1:
            m = self.mat(args[0])
            if name == 'eigvalsh':
                raise Beyond
            return eigs2(m)
        if name == 'setitem' and len(args) == 4:
            return self.set_(*args)
        if name == 'astype' and len(args) == 2 and isinstance(args[1], str):
            to = args[1].split('.')[-1]
            f = {'complex64': lambda x: complex(single(complex(x).real), single(complex(x).imag)),
                 'complex128': complex, 'complex': complex, 'float64': lambda x: complex(x).real,
                 'float': lambda x: complex(x).real, 'float32': lambda x: single(complex(x).real),
                 'int': lambda x: float(int(complex(x).real)), 'int64': lambda x: float(int(complex(x).real))}.get(to)
            if f is None:
                raise Beyond
            return each(f, self.any(args[0]))
        if name in ('around', 'round', 'round_') and len(args) in (1, 2):
            d = int(tm.const_of(args[1])) if len(args) == 2 else 0
            return each(lambda x: complex(round(complex(x).real, d), round(complex(x).imag, d)), self.any(args[0]))
        if name in ('array', 'asarray', 'copy', 'ravel', 'flatten'):
            m = self.any(args[0])
            narrow = [a for a in args[1:] if not (isinstance(a, str) and a.split('.')[-1] in ('complex128', 'complex', 'None'))]
            if any(not (isinstance(a, str) and a.split('.')[-1] == 'complex64') for a in narrow):
                raise Beyond
            return m
        if name == 'isrealobj':
            return False
        raise Beyond

    def x_list(self, *pieces):
        out = []
        for p in pieces:
            if p.op == 'it':
                out.append(self.any(p.args[0]))
            elif p.op == 'for' and p.args[2].op == 'seq':
                n = self.num(p.args[1])
                if n != int(n) or n > 300:
                    raise Beyond
                for i in range(int(n)):
                    e = Eval({**self.env, p.args[0]: i})
                    out += e.x_list(*p.args[2].args)
            else:
                raise Beyond
        return out

    def x_truth(self, x):
        v = self.any(x)
        if isinstance(v, list):
            raise Beyond
        return bool(v)

    # ---- scalars
    def x_poly(self, items):
        s = 0j
        for mono, c in items:
            x = complex(float(c[0]), float(c[1]))
            for a, e in mono:
                v = complex(self.num(a))
                if v == 0 and e <= 0:
                    raise Beyond
                x *= v ** (int(e) if e.denominator == 1 else float(e))
            s += x
        return s

    def x_det(self, m):
        return det(self.mat(m))

    def x_trace(self, m):
        m = self.mat(m)
        return sum(m[i][i] for i in range(len(m)))

    def x_abs(self, x):
        return abs(complex(self.num(x)))

    def x_shape(self, m, i):
        m = self.mat(m)
        return [len(m), len(m[0])][int(tm.const_of(i))]

    def x_fro(self, m, ord=None):
        if ord is not None and ord != 'fro' and not (isinstance(ord, T) and ord.op == 'none'):
            raise Beyond
        return math.sqrt(sum(abs(x) ** 2 for x in flat(self.mat(m))))

    def svals(self, m):
        m = self.mat(m)
        return sorted((math.sqrt(max(0.0, real(x))) for x in eigs2(mul(m, [[complex(x).conjugate() for x in r]
                                                                      for r in tr(m)]))), reverse=True)

    def x_norm2(self, m):
        return self.svals(m)[0]

    def x_svals(self, m):
        return self.svals(m)

    def x_amax(self, x):
        return max(real(v) for v in flat(self.any(x)))

    def x_amin(self, x):
        return min(real(v) for v in flat(self.any(x)))

    def x_powt(self, a, b):
        return complex(self.num(a)) ** self.num(b)

    def x_re(self, x):
        return complex(self.num(x)).real

    def x_im(self, x):
        return complex(self.num(x)).imag

    def x_conj(self, x):
        return complex(self.num(x)).conjugate()

    # ---- conditions
    def close(self, a, b, *rest):
        tol = {'rtol': 1e-5, 'atol': 1e-8}
        for r in rest:
            if not (isinstance(r, T) and r.op == 'tol' and r.args[0] in tol and tm.const_of(r.args[1]) is not None):
                raise Beyond
            tol[r.args[0]] = float(tm.const_of(r.args[1]))
        a, b = self.any(a), self.any(b)
        ds = []
        each(lambda x, y: ds.append(abs(x - y) <= 0.999 * (tol['atol'] + tol['rtol'] * min(abs(x), abs(y)))
                                    or abs(x - y) < 1e-12), a, b)
        return all(ds)

    x_allclose = x_isclose = close

    def x_anyclose(self, a, b, *rest):
        a, b = self.any(a), self.any(b)
        ds = []
        each(lambda x, y: ds.append(abs(x - y) < 1e-12), a, b)
        if not any(ds):
            raise Beyond
        return True

    def x_cleaned(self, m, tol, part):
        t = float(tm.const_of(tol))
        return each(lambda x: put(complex(x), part) if abs(x if not part else getattr(complex(x), part)) < t else x,
                    self.any(m))

    def set_(self, m, mask, v, part):
        m, v = self.any(m), self.num(v)
        if depth(m) != 2 or part not in ('', 'real', 'imag') or v != 0:
            raise Beyond
        if not (isinstance(mask, T) and mask.op == 'mask' and mask.args[0] in ('<', '<=', '>', '>=', '==')):
            raise Beyond
        op, a, b = mask.args
        f = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y,
             '==': lambda x, y: x == y}[op]
        ms = each(lambda x, y: f(real(x), real(y)), self.any(a), self.any(b))
        if depth(ms) != 2:
            raise Beyond
        return each(lambda z, x: put(complex(x), part) if z else x, ms, m)

    def x_part(self, m, which):
        return each(lambda x: getattr(complex(x), which), self.any(m))

    def x_asnum(self, x):
        return self.num(x)

    def x_row(self, m, i):
        i = int(real(self.num(i)))
        m = self.mat(m)
        if not 0 <= i < len(m):
            raise Beyond
        return m[i]

    def mask(self, x):
        if not (isinstance(x, T) and x.op == 'mask' and x.args[0] in ('<', '<=', '>', '>=')):
            raise Beyond
        op, a, b = x.args
        ds = []

        def f(x, y):
            x, y = real(x), real(y)
            if abs(x - y) < 1e-14:
                raise Beyond
            ds.append(x < y if '<' in op else x > y)
        each(f, self.any(a), self.any(b))
        return ds

    def x_allmask(self, x):
        return all(self.mask(x))

    def x_anymask(self, x):
        return any(self.mask(x))

    def x_absbound(self, m, b, op):
        b = real(self.num(b))
        return all(abs(x) < b - 1e-14 for x in flat(self.any(m)))

    def x_forall(self, bv, n, cond):
        n = real(self.num(n))
        if n > 40:
            raise Beyond
        return all(self.any(tm.subst(cond, {bv: i})) for i in range(int(n)))

    def x_exists(self, bv, n, cond):
        n = real(self.num(n))
        if n > 40:
            raise Beyond
        return any(self.any(tm.subst(cond, {bv: i})) for i in range(int(n)))

    def x_le(self, x):
        return real(self.num(x)) <= 1e-13

    def x_lt(self, x):
        return real(self.num(x)) < -1e-13

    def x_eq0(self, x):
        return abs(complex(self.num(x))) < 1e-13

    def x_eq(self, x, y):
        return abs(complex(self.num(x)) - complex(self.num(y))) < 1e-13

    def x_not(self, x):
        return not self.any(x)

    def x_and(self, *xs):
        return all(self.any(x) for x in xs)

    def x_or(self, *xs):
        return any(self.any(x) for x in xs)

    def x_isnone(self, x):
        self.any(x)
        return False


def block(m, n):
    r = eye(n)
    for i in range(2):
        for j in range(2):
            r[i][j] = complex(m[i][j])
    return r


S2 = math.sqrt(0.5)


def candidates():
    base = [[[1, 0], [.6, .8]], [[1, .6], [0, .8]], [[1, 1], [0, 1]], [[2, 0], [0, .5]], [[0, 2], [.5, 0]], [[2, 0], [0, 2]],
            [[0, 0], [0, 0]], [[math.sqrt(2), 1j], [-1j, math.sqrt(2)]], [[1, 1], [1, -1]], [[S2, S2], [S2, S2]],
            [[S2, 1j * S2], [S2, 1j * S2]], [[1, 3], [0, -1]], [[1, 0], [1, 1]], [[1, 0], [0, 0]], [[0, 1], [0, 0]],
            [[1j, 2], [0, -1j]], [[1, 1j], [1j, 1]], [[1, 2], [-2, 1]], [[1, 2], [2j, 1]], [[1j, 0], [0, 1j]], [[1, 0], [0, 1j]], [[.5, 0], [0, .5]], [[1, 1j], [0, 1]], [[1, .3], [.3, 1]], [[math.sqrt(1.5), 0], [0, S2]]]
    for e in (1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7):
        base += [[[1, e], [0, 1]], [[1, e], [-e, 1]] if e > 1e-4 else [[1, 0], [e, 1]], [[1, 1j * e], [0, 1]]]
        if e > 2e-5:
            base += [[[1 + e, 0], [0, 1]], [[1 + e, 0], [0, 1 / (1 + e)]], [[1 - e, 0], [0, 1]], [[1 + e, 0], [0, 1 + e]]]
    for n in (2, 3, 4, 8, 16, 32):
        for m in base if n <= 4 else base[:9]:
            yield block(m, n)
    for n in (64, 128, 256):
        yield block(base[0], n)
    for x in (2, .5, 0, 1.1, 1.001):
        yield [[complex(x)]]


def nonunitary(a):
    '''Clearly so: the defect is many times the tolerance of numpy.allclose.'''
    d = mul(a, [[complex(x).conjugate() for x in r] for r in tr(a)])
    return any(abs(x - (i == j)) > (2e-5 if i == j else 2e-8) for i, r in enumerate(d) for j, x in enumerate(r))


def nonhermitian(a):
    return any(abs(a[i][j] - complex(a[j][i]).conjugate()) > 2e-5 * max(1, abs(a[i][j]))
               for i in range(len(a)) for j in range(len(a)))


def unitaries():
    out = [[[0, 1], [1, 0]], [[-1, 0], [0, -1]], [[S2, S2], [S2, -S2]], [[1, 0], [0, 1j]], [[.6, -.8], [.8, .6]],
           [[S2, -1j * S2], [-1j * S2, S2]], [[0, -1j], [1j, 0]], [[.6, .8j], [.8j, .6]], [[1, 0], [0, 1]], [[0, -1], [-1, 0]]]
    for e in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10):
        k, q = math.cos(e), math.sin(e)
        out += [[[k, -q], [q, k]], [[k, -1j * q], [-1j * q, k]], [[1, 0], [0, complex(k, q)]], [[q, 1j * k], [1j * k, q]]]
    for f in (.3, 1.1, 2.5, -2.0):
        z = cmath.exp(1j * f)
        for m in ([[.6, -.8], [.8, .6]], [[S2, S2], [S2, -S2]], [[.6, .8j], [.8j, .6]], [[1, 0], [0, 1]],
                  [[1, 0], [0, cmath.exp(.7j)]]):
            out.append([[z * x for x in r] for r in m])
    for m in out:
        yield block(m, 2)
    for m in out[:8]:
        for n in (3, 4):
            yield block(m, n)
    for f in (0, .3, 2.5, math.pi):
        yield [[cmath.exp(1j * f)]]


def differs(facts, M, D, got, holds=None):
    '''A unitary matrix for M with which all facts about it hold and got is not a multiple of it of determinant one:
    (matrix, what is wrong), or None.'''
    rel = [f for f in facts if isinstance(f, T) and any(y is M or y is D for y in tm.subterms(f))]
    for a in unitaries():
        env = {M: a, D: len(a)}
        try:
            if not all(Eval(env).any(f) is True for f in rel):
                continue
            g = Eval(env).mat(got)
            if len(g) != len(a) or len(g[0]) != len(a):
                continue
            k = sum(complex(x).conjugate() * y for x, y in zip(flat(a), flat(g))) / len(a)
            if any(abs(y - k * x) > 1e-9 for x, y in zip(flat(a), flat(g))) or abs(abs(k) - 1) > 1e-9:
                return a, 'phase', g
            if abs(det(g) - 1) > 1e-6:
                return a, 'det', g
        except (Beyond, OverflowError, ZeroDivisionError, TypeError, ValueError, IndexError):
            continue
    return None


def find(facts, M, D, wrong, holds=None):
    '''A matrix for the symbol M (of size D, if given) which is wrong and with which all facts about it hold; None when there
    is none among the candidates, or the facts are beyond evaluation.'''
    need = {M} | ({D} if D is not None else set())
    rel = [f for f in facts if isinstance(f, T) and any(y in need for y in tm.subterms(f))]
    free = {}
    for f in rel:
        for x in tm.subterms(f):
            if x.op in ('le', 'lt', 'eq0', 'eq', 'sym', 'attrof') and x.kind == 'bool' and not any(
                    y in need or y.op in ('call', 'unk', 'mu') for y in tm.subterms(x)) and holds and holds(x) is None:
                free[x] = x
    if len(free) > 3:
        return None
    for a, vs in itertools.product(candidates(), itertools.product((True, False), repeat=len(free))):
        if not wrong(a):
            continue
        env = {M: a, **dict(zip(free, vs))}
        if D is not None:
            env[D] = len(a)
        try:
            if all(Eval(env).any(f) is True for f in rel):
                return a
        except (Beyond, OverflowError, ZeroDivisionError, TypeError, ValueError, IndexError):
            continue
    return None


def text(a):
    def n(x):
        x = complex(x)
        r = f'{x.real:.7g}' if not x.imag else f'{x.imag:.7g}j' if not x.real else f'{x.real:.5g}{x.imag:+.5g}j'
        return r
    k = min(len(a), 2)
    return '[' + ', '.join('[' + ', '.join(n(x) for x in r[:k]) + ']' for r in a[:k]) + ']' + (
        f' as the leading block of a {len(a)}x{len(a)} identity' if len(a) > 2 else '')
