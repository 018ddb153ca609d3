from .common import *
from .. import contracts as ct
from .. import witness
from .p01 import tol_ok
from .p26 import refuses, wrong
from ..interp import forall_t

RULE = ('A Hamiltonian term over an arbitrary matrix and a Hamiltonian over an arbitrary term list: on every path that '
        'returns, the facts must imply square, Hermitian, non-empty and of one dimension; strength must be the largest '
        'singular value, strength times shape the matrix, and the evolution operator exp(i t sum of the term matrices) as '
        'terms; a matrix of strength zero and arguments of a wrong kind must be refused.')
ASSUMES = ['numpy.linalg.svd returns singular values, scipy.linalg.expm the matrix exponential',
           'NumPy division by zero gives NaN, which is close to nothing']


def term(c, s):
    site = s.site('HamiltonianTerm', '__init__')
    H = s.inp('H', 'mat')
    m = tm.matsym(H)

    def ret(o, r):
        r0, r1 = mk('shape', m, 0, kind='int'), mk('shape', m, 1, kind='int')
        c.entails('term: the matrix is square', site, o, cmp_eq(r0, r1))
        hermitian(c, s, 'term: the matrix is Hermitian', site, o, H)
        n2 = mk('norm2', m, kind='real')
        k = s.m(r, 'get_coefficient')
        c.eq('term: strength is the largest singular value', site, o, k, n2)
        c.eq('term: matrix is the given matrix', site, o, mat_of_term(s, s.m(r, 'get_matrix')), m)
        c.eq('term: strength times shape is the given matrix', site, o,
             tm.mscale(s.vt(k), mat_of_term(s, s.m(r, 'get_normalized_matrix'))), m)
        c.eq('term: shape is the matrix over its largest singular value', site, o,
             mat_of_term(s, s.m(r, 'get_normalized_matrix')), tm.mscale(tm.div(1, n2), m))
        c.eq('term: dimension is that of the matrix', site, o, s.m(r, 'get_dimension'), r0)
    c.run('term', site, lambda: s.new('HamiltonianTerm', H), ret)

    def zero():
        return s.new('HamiltonianTerm', s.I.new_mat(s.I.lib.lit(((0, 0), (0, 0)))))
    refuses(c, s, 'term: refuses the zero matrix, which has no positive strength', site, zero)
    for w, f in wrong(s) + [('a list of rows', lambda: s.I.new_list([It(s.I.new_list([It(1)]))]))]:
        refuses(c, s, f'term: refuses {w}', site, lambda: s.new('HamiltonianTerm', f()))


def hermitian(c, s, name, site, o, H):
    m = tm.matsym(H)
    if any(f.op == 'allclose' and {f.args[0], f.args[1]} in ({m, dagger(m)}, {tm.mconj(m), tm.transpose(m)}) and tol_ok(
            f.args[2:]) for f in o.st.facts):
        return c.ob(name, site, 'ok')
    tested = [f for f in o.st.facts if mentions(f, H) and any(
        x.op not in ('shape', 'len', 'isnone', 'sym', 'poly', 'eq0', 'le', 'lt', 'and', 'not', 'or', 'mat', 'msym', 'norm2')
        for x in subterms(f))]
    why = f'tests of the matrix: {"; ".join(show(f, 6) for f in tested)[:300] or "none"}'
    found = witness.find(o.st.facts, H, None, witness.nonhermitian, s.holds)
    if found is not None:
        return c.true(name, site, o, False, f'accepts {witness.text(found)}, which is not Hermitian; {why}', seen={H})
    if tested:
        return c.ob(name, site, 'unknown', f'tested in another form; {why}')
    return c.true(name, site, o, False, 'returns without requiring matrix = conjugate transpose')


def mat_of_term(s, v):
    return s.I.canon(s.vt(v))


def hamiltonian(c, s):
    site = s.site('Hamiltonian', '__init__')
    ts = s.listof('terms', 'HamiltonianTerm')
    k = fresh_idx()
    n = mk('len', ts, kind='int')
    el = s.I.generic(mk('elem', ts, k), ('cls', s.cls('HamiltonianTerm')))

    def ret(o, h):
        c.entails('Hamiltonian: has at least one term', site, o, cmp_le(1, n))
        d = s.m(h, 'get_dimension')
        c.entails('Hamiltonian: all terms have its dimension', site, o,
                  forall_t(k, n, cmp_eq(s.m(s.I.mat(el), 'get_dimension'), d)))
        c.eq('Hamiltonian: the number of qubits is the logarithm of the dimension', site, o,
             s.m(h, 'get_qubit_count'), tm.to_int(tm.log2(s.vt(d))))
    c.run('Hamiltonian', site, lambda: s.new('Hamiltonian', ts), ret)
    refuses(c, s, 'Hamiltonian: refuses an empty list', site, lambda: s.new('Hamiltonian', s.I.new_list([])))
    one = s.inp('one', 'cls', 'HamiltonianTerm')
    for w, f in wrong(s) + [('a matrix', lambda: s.inp('wm', 'mat'))]:
        refuses(c, s, f'Hamiltonian: refuses {w} as the list', site, lambda: s.new('Hamiltonian', f()))
        for where, order in (('alone', 0), ('after a term', 1), ('before a term', -1)):
            def lst():
                x = f()
                return s.I.new_list([It(v) for v in ([x] if not order else [one, x] if order > 0 else [x, one])])
            refuses(c, s, f'Hamiltonian: refuses {w} as a term, {where}', site, lambda: s.new('Hamiltonian', lst()))


def total(s, lst, n):
    k = fresh_idx()
    el = s.I.mat(s.I.generic(mk('elem', lst, k), ('cls', s.cls('HamiltonianTerm'))))
    return s.I.canon(tm.summat(n, k, s.I.canon(s.vt(s.m(el, 'get_matrix')))))


def evolution(c, s):
    site = s.site('Hamiltonian', 'get_time_evolution_operator')
    t = sym('in:t', 'real')
    ts = s.listof('terms', 'HamiltonianTerm')
    n = mk('len', ts, kind='int')
    tm.MODPHASE[0] = True

    def ret(o, r):
        want = tm.expm(s.I.canon(tm.mscale(tm.mul(1j, t), total(s, ts, n))))
        phase_eq(c, 'evolution: is exp(i H t) of the sum of all terms', site, o, mat_of(s, r), want)
        c.eq('evolution: records the time', site, o, s.vt(s.m(r, 'get_parameter_value', 't')), s.vt((t, False)))
    c.run('evolution', site,
          lambda: s.m(s.new('Hamiltonian', ts), 'get_time_evolution_operator', t), ret)
    two = [s.inp(f'term{i}', 'cls', 'HamiltonianTerm') for i in range(3)]

    def ret2(o, r):
        m = tm.from_mat({})
        for x in two:
            m = tm.madd(m, s.I.canon(s.vt(s.m(x, 'get_matrix'))))
        phase_eq(c, 'evolution of three terms: is exp(i H t) of their sum', site, o, mat_of(s, r),
                 tm.expm(s.I.canon(tm.mscale(tm.mul(1j, t), m))))
    c.run('evolution of three terms', site,
          lambda: s.m(s.new('Hamiltonian', s.I.new_list([It(x) for x in two])), 'get_time_evolution_operator', t), ret2)


def terms_of(s, n):
    '''n terms of one dimension.'''
    ts = [s.inp(f'term{i}', 'cls', 'HamiltonianTerm') for i in range(n)]
    d = s.inp('D', 'int')
    s.pre(cmp_le(2, d))
    for x in ts:
        s.pre(cmp_eq(s.m(s.I.mat(x), 'get_dimension'), d))
        m = s.I.canon(s.vt(s.m(x, 'get_matrix')))
        for i in (0, 1):
            s.pre(cmp_eq(mk('shape', m, i, kind='int'), d))
        s.pre(cmp_lt(0, s.m(x, 'get_coefficient')))
    return ts, d


def valid(c, s):
    H = s.inp('H', 'mat')
    m = tm.matsym(H)
    tm.MODPHASE[0] = True

    def one():
        s.pre(cmp_le(1, mk('shape', m, 0, kind='int')))
        s.pre(cmp_eq(mk('shape', m, 0, kind='int'), mk('shape', m, 1, kind='int')))
        return s.new('HamiltonianTerm', H)
    c.accepts('term: a square matrix is accepted if it is Hermitian', s.site('HamiltonianTerm', '__init__'), one)
    t = sym('in:t', 'real')
    for n in (1, 2, 3):
        def some(n=n):
            ts, d = terms_of(s, n)
            return s.new('Hamiltonian', s.I.new_list([It(x) for x in ts]))
        c.accepts(f'Hamiltonian: {n} terms of one dimension are accepted', s.site('Hamiltonian', '__init__'), some)
        c.accepts(f'evolution: accepted with {n} terms', s.site('Hamiltonian', 'get_time_evolution_operator'),
                  lambda some=some: s.m(some(), 'get_time_evolution_operator', t))


PARTS = [term, hamiltonian, evolution, valid]
